# third batch: idioms of small local edits (numpy vocabulary, dispatch tables, setattr loops, sorted/reduce, match statements)
ref("conv where", ("_convergence.py", "check_convergence_keplerian", '''
@njit
def check_convergence_keplerian(oe, oeT, woe, tol_oe):
    """Check convergence between oe and oeT for Keplerian elements"""
    n = len(tol_oe)
    n_ok = 0
    for idx in range(n):
        err = oeT[idx] - oe[idx]
        if idx >= 3:
            err = np.arccos(np.cos(err))
        if woe[idx] == 0.0 or np.abs(err) <= tol_oe[idx]:
            n_ok += 1
    return n_ok == n
'''), ("_convergence.py", "check_convergence_mee", '''
@njit
def check_convergence_mee(oe, oeT, woe, tol_oe):
    """Check convergence between oe and oeT for MEE or MEE-a"""
    within = np.abs(oeT[:5] - oe[:5]) <= np.asarray(tol_oe)
    ignored = np.asarray(woe) == 0.0
    return bool(np.all(np.logical_or(within, ignored)))
'''), ("_convergence.py", "elements_safety", '''
@njit
def elements_safety(oe, oe_min, oe_max):
    """Ensure osculating elements stays within bounds"""
    oe_clean = np.copy(oe)
    oe_clean[:5] = np.minimum(np.maximum(oe_min[:5], oe[:5]), oe_max[:5])
    return oe_clean
'''))

ref("transform fill", ("_transformations.py", "rotmat1", '''
@njit
def rotmat1(phi):
	c, s = np.cos(phi), np.sin(phi)
	R = np.eye(3)
	R[1, 1] = c
	R[1, 2] = s
	R[2, 1] = -s
	R[2, 2] = c
	return R
'''), ("_transformations.py", "rotmat3", '''
@njit
def rotmat3(phi):
	c = np.cos(phi)
	s = np.sin(phi)
	R = np.zeros((3, 3))
	R[0, :2] = c, s
	R[1, :2] = -s, c
	R[2, 2] = 1.0
	return R
'''), ("_transformations.py", "wrap", '''
def wrap(alpha):
	"""Wrap angle to be between -pi and pi"""
	turn = 2.0 * np.pi
	shifted = alpha + np.pi
	return np.mod(shifted, turn) - np.pi
'''))

ref("eom columns", ("_eom.py", "eom_mee_with_a_gauss", '''
@njit
def eom_mee_with_a_gauss(t, state, param):
    """Equations of motion for gauss with MEE"""
    mu, u, psi_c0, psi_c1, psi_c2, ptrb_RTN = param
    sma = state[0]
    f, g, h, k, l = state[1:6]
    p = sma*(1 - (f*f + g*g))
    cosL, sinL = np.cos(l), np.sin(l)
    w = 1 + f*cosL + g*sinL
    acc = u + ptrb_RTN
    doe = np.zeros(6)
    for j in range(5):
        doe[j] = psi_c0[j]*acc[0] + psi_c1[j]*acc[1] + psi_c2[j]*acc[2]
    doe[5] = np.sqrt(p/mu)/w*(h*sinL - k*cosL)*acc[2] + np.sqrt(mu*p)*(w/p)**2
    return doe
'''), ("_eom.py", "eom_kep_gauss", '''
@njit
def eom_kep_gauss(t, state, param):
    """Equations of motion for gauss with keplerian elements"""
    mu, u, psi_c0, psi_c1, psi_c2, ptrb_RTN = param
    sma, ecc, inc, ra, om, ta = state
    p = sma*(1 - ecc**2)
    h = np.sqrt(mu*p)
    r = p/(1 + ecc*np.cos(ta))
    acc = u + ptrb_RTN
    slow = np.zeros(5)
    for i in range(5):
        slow[i] += psi_c0[i]*acc[0]
        slow[i] += psi_c1[i]*acc[1]
        slow[i] += psi_c2[i]*acc[2]
    fast = h/r**2 + (p*np.cos(ta)*acc[0] - (p + r)*np.sin(ta)*acc[1])/(ecc*h)
    return np.append(slow, fast)
'''))

ref("rk4 accumulate", ("_integrate.py", "rk4", '''
@njit
def rk4(rhs, t, h, y, p):
    """Perform single-step Runge-Kutta 4th order"""
    half = 0.5*h
    total = np.zeros(len(y))
    k = rhs(t, y, p)
    total += k
    for w in (2.0, 2.0):
        k = rhs(t + half, y + half*k, p)
        total += w*k
    k = rhs(t + h, y + h*k, p)
    total += k
    return y + h*total/6.0
'''))

ref("lyap angles hypot", ("_lyapunov.py", "_u_to_thrust_angles", '''
@njit
def _u_to_thrust_angles(u_float):
    """Convert unscaled vector u_float to unit-vector u & thrust angles alpha and beta"""
    u = u_float/la.norm(u_float)
    d = -u
    in_plane = np.hypot(d[0], d[1])
    return u, np.arctan2(d[0], d[1]), np.arctan2(d[2], in_plane)
'''), ("_lyapunov.py", "lyapunov_control_angles", '''
def lyapunov_control_angles(
        fun_lyapunov_control,
        mu, 
        f, 
        oe, 
        oeT, 
        rpmin, m_petro, n_petro, 
        r_petro, b_petro, k_petro, 
        wp, 
        woe,
    ):
    """Compute thrust angles from Lyapunov feedback control law"""
    law_args = (mu, f, oe, oeT, rpmin, m_petro, n_petro, r_petro, b_petro, k_petro, wp, woe)
    u_raw, psi, q, dqdoe = fun_lyapunov_control(*law_args)
    u, alpha, beta = _u_to_thrust_angles(np.array(list(map(float, u_raw))))
    acc = f * u
    rates = [sum(row[j]*acc[i] for i, row in enumerate(psi)) for j in range(5)]
    dqdt = np.dot(np.array(dqdoe), np.array(rates))
    return alpha, beta, u, psi, q, dqdt
'''))

ref("perturb table", ("_perturbations.py", "SpicePerturbations.get_perturbations_RTN", '''
def get_perturbations_RTN(self, t, oe, elements_type):
    """Compute perturbation in RTN frame"""
    to_cartesian = {"keplerian": kep2sv, "mee_with_a": mee_with_a2sv}
    if elements_type not in to_cartesian:
        raise ValueError(f"Invalid elements type {elements_type}")
    rv_ECI = to_cartesian[elements_type](oe, self.obs_mu)
    pos, vel = rv_ECI[:3], rv_ECI[3:]
    et = self.et_ref + t * self.TU

    def position_of(body):
        return spice.spkpos(body, et, self.frame_qlaw, "NONE", self.obs_id)[0]/self.LU

    effects = [np.zeros(3)]
    if self.third_bodies_gms and self.third_bodies_names:
        effects += [perturbation_third_body_battin(pos, position_of(ID), mu3)
                    for mu3, ID in zip(self.third_bodies_gms, self.third_bodies_names)]
    if self.use_J2:
        effects.append(perturbation_J2(pos, spice.pxform(self.frame_qlaw, self.frame_PA, et), self.obs_mu, self.J2, self.Re))
    if self.use_SRP:
        effects.append(perturbation_SRP(pos - position_of("10"), spice.convrt(1.0, "AU", "km")/self.LU, self.k_srp))
    return pxformECI2RTN(pos, vel) @ np.sum(effects, axis=0)
'''), ("_perturbations.py", "pxformECI2RTN", '''
@njit
def pxformECI2RTN(rECI, vECI):
    """Compute 3-by-3 transformation matrix from ECI to RTN frame"""
    er = rECI / np.sqrt(np.dot(rECI, rECI))
    en = np.cross(rECI, vECI)
    en = en / np.sqrt(np.dot(en, en))
    return np.vstack((er, np.cross(en, er), en))
'''), ("_perturbations.py", "perturbation_J2", '''
@njit
def perturbation_J2(rECI, T_ECI2PA, mu, J2, Re):
    """Compute J2 perturbation in perifocal frame and return vector in ECI frame"""
    rPA = T_ECI2PA @ rECI
    r = np.linalg.norm(rECI)
    z2 = 5*(rPA[2]/r)**2
    shape = np.array([1 - z2, 1 - z2, 3 - z2])
    a_J2_PA = -1.5*mu*J2*Re**2/r**5 * shape * rPA
    return np.transpose(T_ECI2PA) @ a_J2_PA
'''))

ref("set problem setattr", ("_qlaw.py", "QLaw.set_problem", '''
def set_problem(
    self, 
    oe0, 
    oeT, 
    mass0, 
    tmax, 
    mdot, 
    tf_max=100000.0, 
    t_step=0.1,
    mass_min=0.1,
    woe=None,
    duty_cycle=(1e16,0.0),
    battery_initial=1.0,
    battery_capacity=(0.2,1.0),
    battery_charge_discharge_rate=(0.0,0.0),
    require_full_recharge=False,
):
    """Set transfer problem"""
    assert len(oe0) == 6, "oe6 must have 6 components"
    assert mass_min >= 1e-2, "mass should be above 0.01 to avoid numerical difficulties"
    assert woe is None or len(woe) == 5, "woe must have 5 components"
    self.woe = np.ones(5) if woe is None else np.array(woe)
    values = dict(
        tf_max=tf_max, t_step=t_step,
        oe0=oe0, oeT=oeT[:5] if len(oeT) == 6 else oeT,
        mass0=mass0, tmax=tmax, mdot=mdot, mass_min=mass_min,
        duty_cycle=duty_cycle,
        battery_initial=battery_initial,
        battery_capacity=battery_capacity,
        battery_charge_discharge_rate=battery_charge_discharge_rate,
        require_full_recharge=require_full_recharge,
    )
    for name, value in values.items():
        setattr(self, name, value)
    self.ready = True
'''))

ref("qdot sorted", ("_qlaw.py", "QLaw.evaluate_osculating_qdot", '''
def evaluate_osculating_qdot(self, oe, accel_thrust):
    """Evaluate Qdot over the entire orbit"""
    n = self.anomaly_grid_size
    petro = (self.rpmin, self.m_petro, self.n_petro, self.r_petro, self.b_petro, self.k_petro, self.wp, self.woe)
    best = worst = None
    for k in range(1, n + 1):
        oe_test = np.append(oe[0:5], oe[5] + 2*np.pi*k/n)
        rate = self.dqdt_fun(self.mu, accel_thrust, oe_test, self.oeT, *petro)
        if best is None or abs(rate) > abs(best):
            best = rate
        if worst is None or abs(rate) < abs(worst):
            worst = rate
    return best, worst
'''))

ref("interp vstack", ("_qlaw.py", "QLaw.interpolate_states", '''
def interpolate_states(self, kind="quadratic"):
    """Create interpolation states"""
    columns = np.vstack([np.asarray(s, dtype=float) for s in self.states]).T
    return tuple(interp1d(self.times, columns[k], kind=kind) for k in range(6))
'''), ("_qlaw.py", "QLaw.get_cartesian_history", '''
def get_cartesian_history(self, interpolate=False, steps=None, kind="quadratic", get_t_evals=False):
    """Get Cartesian history of states"""
    to_cartesian = {"keplerian": kep2sv, "mee_with_a": mee_with_a2sv}[self.elements_type]
    t_evals = None
    if not interpolate:
        samples = [np.array(s) for s in self.states]
    else:
        functions = self.interpolate_states(kind=kind)
        if steps is None:
            steps = min(8000, abs(int(round(self.times[-1]/0.01))))
            print("Using %d steps for evaluation" % steps)
        t_evals = np.linspace(self.times[0], self.times[-1], steps)
        samples = [np.array([f(t) for f in functions]) for t in t_evals]
    cart = np.zeros((6, len(samples)))
    for idx, sample in enumerate(samples):
        cart[:, idx] = to_cartesian(sample, self.mu)
    return (cart, t_evals) if get_t_evals else cart
'''))

ref("save merge", ("_qlaw.py", "QLaw.save_to_dict", '''
def save_to_dict(self, filepath, canonical_units=None, save_control_angles = False):
    """Export result into a dictionary, saved as json if filepath is provided"""
    if self.elements_type == "keplerian":
        to_mee = kep2mee
    else:
        to_mee = mee_with_a2mee
    states = []
    for oe, m in zip(self.states, self.masses):
        states.append([*to_mee(oe), m])
    controls = np.array([list(c) for c in self.controls] + [[0, 0, 0]])   # final step to match time-steps
    if not save_control_angles:
        alphas, betas, taus = controls.T
        cb = np.cos(betas)
        controls = np.column_stack((cb*np.sin(alphas), cb*np.cos(alphas), np.sin(betas), taus))
    initial_guess = dict(t0=0.0, tf=self.times[-1], times=self.times, canonical_units=canonical_units, states=states, controls=controls)
    if filepath is None:
        return initial_guess
    with open(filepath, "w") as f:
        json.dump(initial_guess, f, cls=NumpyEncoder, indent=4)
    return initial_guess
'''))

ref("solve match tuple", ("_qlaw.py", "+QLaw", '''
def _lyapunov(self, accel_thrust, oe):
    """Evaluate the feedback law with the settings of this problem"""
    names = ("mu", "oeT", "rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp", "woe")
    return lyapunov_control_angles(fun_lyapunov_control=self.lyap_fun, f=accel_thrust, oe=oe, **{n: getattr(self, n) for n in names})

def _integrate_step(self, t, h, oe, params):
    """One integrator step"""
    match self.integrator:
        case "rk4":
            return rk4(self.eom, t, h, oe, params)
        case "rkf45":
            return rkf45(self.eom, t, h, oe, params, self.ode_tol)[0]
        case _:
            raise ValueError("integrator name invalid!")

def _anomaly_step(self, oe):
    """Time step that advances the eccentric anomaly by `t_step`"""
    if self.elements_type == "keplerian":
        ecc, E0 = oe[1], ta2ea(oe[5], oe[1])
    else:
        ecc, E0 = np.hypot(oe[1], oe[2]), mee2ea(oe)
    dM = self.t_step - ecc*(np.sin(E0 + self.t_step) - np.sin(E0))
    return dM*np.sqrt(oe[0]**3/self.mu)

def _thresholds(self, etas, t, oe, mass, battery):
    """Current values of the effectivity thresholds"""
    return [eta(t, oe, mass, battery) if callable(eta) else eta for eta in etas]

def _record(self, **values):
    """Append values to the histories"""
    for name, value in values.items():
        getattr(self, name).append(value)
'''), ("_qlaw.py", "QLaw.solve", '''
def solve(self, eta_a=0.0, eta_r=0.0):
    """Propagate and solve control problem"""
    assert self.ready == True, "Please first call `set_problem()`"
    for label, eta in (("eta_a", eta_a), ("eta_r", eta_r)):
        if not isinstance(eta, float) and not callable(eta):
            raise ValueError(f"Invalid type for `{label}`. Expected float or callable function.")

    self.converge, self.exitcode = False, 0
    for name in ("Qs", "dQdts", "controls", "etas", "etas_bounds"):
        setattr(self, name, [])
    t, oe, mass, battery = 0.0, self.oe0, self.mass0, self.battery_initial
    self.times, self.states, self.masses, self.battery = [t], [oe], [mass], [battery]
    on_time, off_time = self.duty_cycle[0], self.duty_cycle[1]
    empty, full = self.battery_capacity[0], self.battery_capacity[1]
    charge, discharge = self.battery_charge_discharge_rate[0], self.battery_charge_discharge_rate[1]
    talk = self.verbosity > 0
    if self.verbosity >= 2:
        self.disable_tqdm = True
        header = " iter   |  time      |  del1       |  del2       |  del3       |  del4       |  del5       |  el6        |"

    duty, charging = True, False
    t_on = t_off = 0.0
    alpha = beta = 0.0
    cleared = undefined = 0
    idx = 0
    while True:
        if not abs(self.times[-1]) < abs(self.tf_max):
            break
        if self.elements_type == "keplerian":
            oe = elements_safety(oe, self.oe_min, self.oe_max)
        h = self._anomaly_step(oe) if self.use_sundman else self.t_step

        if duty and abs(t - t_on) > on_time:
            duty, t_off = False, t
        if not duty and abs(t - t_off) > off_time:
            duty, t_on = True, t
        if battery <= empty + 1e-12:
            duty, t_off, charging = False, t, True
        elif duty and not (charging and self.require_full_recharge) and battery - discharge*h < empty:
            h = (battery - empty)/discharge
        if self.require_full_recharge and charging and battery < full:
            duty = False

        accel = np.sign(h) * self.tmax/mass
        val_eta_a = val_eta_r = bound_a = bound_r = np.nan
        coast = np.zeros((3,))
        u, throttle = coast, 0
        a, b, _, psi, q, qdot = self._lyapunov(accel, oe)
        if duty:
            if np.isnan(a) or np.isnan(b):
                alpha = beta = 0.0
                undefined += 1
                if undefined > self.nan_angles_threshold:
                    if talk:
                        print("Breaking as angles are nan")
                    self.exitcode = -3
                    break
            else:
                alpha, beta = a, b
                u, throttle = accel*np.array([np.cos(beta)*np.sin(alpha), np.cos(beta)*np.cos(alpha), np.sin(beta)]), 1
                bound_a, bound_r = self._thresholds((eta_a, eta_r), t, oe, mass, battery)
                if bound_r > 0 or bound_a > 0:
                    qdot_min, qdot_max = self.evaluate_osculating_qdot(oe, accel)
                    val_eta_a, val_eta_r = np.abs(qdot/qdot_min), np.abs((qdot - qdot_max)/(qdot_min - qdot_max))
                    if val_eta_a < bound_a or val_eta_r < bound_r:
                        u, throttle = coast, 0

        ptrb = np.zeros(3,)
        if self.perturbations is not None:
            ptrb = self.perturbations.get_perturbations_RTN(t, oe, self.elements_type)
        oe = self._integrate_step(t, h, oe, (self.mu, u, psi[0], psi[1], psi[2], ptrb))
        t += h
        mass -= self.mdot*h if throttle == 1 else 0.0
        battery = np.clip(battery + (-discharge if duty else charge)*h, empty, full)
        if not duty and battery == full:
            charging = False
        self._record(times=t, states=oe, masses=mass, controls=[alpha, beta, throttle], etas=[val_eta_a, val_eta_r],
                     etas_bounds=[bound_a, bound_r], Qs=q, dQdts=qdot, battery=battery)

        if self.check_convergence(oe, self.oeT, self.woe, self.tol_oe):
            self.exitcode, self.converge = 1, True
            break
        if self.check_convergence(oe, self.oeT, self.woe, self.tol_oe_relaxed):
            cleared += 1
            if cleared >= self.exit_at_relaxed:
                self.exitcode, self.converge = 2, True
                break
        if self.verbosity >= 2 and np.mod(idx, self.print_frequency) == 0:
            if np.mod(idx, 20*self.print_frequency) == 0:
                print("\\n" + header)
            errors = [x - y for x, y in zip(oe[:5], self.oeT)]
            print(f" {idx:6.0f} | {t: 1.3e} | " + " | ".join(f"{x: 1.4e}" for x in [*errors, oe[5]]) + " |")
        if mass <= self.mass_min:
            if talk:
                print("Breaking as mass is now under mass_min")
            self.exitcode = -1
            break
        idx += 1

    if self.converge:
        if talk:
            print("Target elements successfully reached!")
    elif self.exitcode == 0:
        if talk:
            print("Could not arrive to target elements within time")
        self.exitcode = -2
'''))

ref("pretty write", ("_qlaw.py", "QLaw.pretty", '''
def pretty(self):
    """Pretty print"""
    lines = ["Transfer:"]
    for k in range(5):
        lines.append("  {}  : {:1.4e} -> {:1.4e} (weight: {:2.2f})".format(self.element_names[k], self.oe0[k], self.oeT[k], self.woe[k]))
    for line in lines:
        print(line)
'''), ("_qlaw.py", "QLaw.pretty_results", '''
def pretty_results(self):
    """Pretty print results of the problem"""
    final = self.states[-1]
    report = {"Exit code": self.exitcode, "Converge ": self.converge}
    for label, value in report.items():
        print(label, ":", value)
    print("Final state:")
    for name, x, target in zip(self.element_names, final, self.oeT):
        print(f"  {name}  : {x:1.4e} (error: {np.abs(x - target):1.4e})")
    print(f"Transfer time : {self.times[-1]}\\nFinal mass    : {self.masses[-1]}")
'''))
