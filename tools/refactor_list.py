ref("solve split", ("_qlaw.py", "+QLaw", '''
    def _resolve_threshold(self, eta, t, oe, mass, battery):
        """Value of an efficiency threshold at the current point"""
        if isinstance(eta, float):
            return eta
        return eta(t, oe, mass, battery)

    def _control(self, oe, accel):
        """Evaluate the Lyapunov feedback law"""
        alpha, beta, _, psi, q, qdot = lyapunov_control_angles(
            fun_lyapunov_control=self.lyap_fun, mu=self.mu, f=accel, oe=oe, oeT=self.oeT,
            rpmin=self.rpmin, m_petro=self.m_petro, n_petro=self.n_petro, r_petro=self.r_petro,
            b_petro=self.b_petro, k_petro=self.k_petro, wp=self.wp, woe=self.woe)
        return alpha, beta, psi, q, qdot

    def _local_step(self, oe):
        """Time-step to be used from the current state"""
        if not self.use_sundman:
            return self.t_step
        if self.elements_type == "keplerian":
            ecc = oe[1]
            E0 = ta2ea(oe[5], oe[1])
        else:
            ecc = np.sqrt(oe[1]**2 + oe[2]**2)
            E0 = mee2ea(oe)
        period = 2*np.pi*np.sqrt(oe[0]**3/self.mu)
        E1 = E0 + self.t_step
        mean = [E - ecc*np.sin(E) for E in (E0, E1)]
        return (mean[1] - mean[0])/(2*np.pi)*period

    def _propagate(self, t, step, oe, params):
        """One step of the selected integrator"""
        if self.integrator == "rk4":
            return rk4(self.eom, t, step, oe, params)
        elif self.integrator == "rkf45":
            oe_next, _ = rkf45(self.eom, t, step, oe, params, self.ode_tol)
            return oe_next
        raise ValueError("integrator name invalid!")

    def _record(self, t, oe, mass, control, eta, bounds, q, qdot, battery):
        """Append one step to the history"""
        self.times.append(t)
        self.states.append(oe)
        self.masses.append(mass)
        self.controls.append(control)
        self.etas.append(eta)
        self.etas_bounds.append(bounds)
        self.Qs.append(q)
        self.dQdts.append(qdot)
        self.battery.append(battery)

    def _say(self, message):
        if self.verbosity > 0:
            print(message)
'''), ("_qlaw.py", "QLaw.solve", '''
    def solve(self, eta_a=0.0, eta_r=0.0):
        """Propagate and solve control problem"""
        assert self.ready == True, "Please first call `set_problem()`"
        for label, eta in (("eta_a", eta_a), ("eta_r", eta_r)):
            if not (isinstance(eta, float) or callable(eta)):
                raise ValueError(f"Invalid type for `{label}`. Expected float or callable function.")

        self.converge = False
        self.exitcode = 0
        t, oe, mass, battery = 0.0, self.oe0, self.mass0, self.battery_initial
        self.Qs, self.dQdts = [], []
        self.times, self.states, self.masses = [t], [oe], [mass]
        self.controls, self.etas, self.etas_bounds = [], [], []
        self.battery = [battery]
        n_relaxed = n_nan = 0
        if self.verbosity >= 2:
            self.disable_tqdm = True
        header = " iter   |  time      |  del1       |  del2       |  del3       |  del4       |  del5       |  el6        |"

        low, high = self.battery_capacity[0], self.battery_capacity[1]
        rate_charge, rate_discharge = self.battery_charge_discharge_rate[0], self.battery_charge_discharge_rate[1]
        duty, charging = True, False
        t_on = t_off = 0.0
        alpha = beta = 0.0
        idx = 0
        while abs(t) < abs(self.tf_max):
            if self.elements_type == "keplerian":
                oe = elements_safety(oe, self.oe_min, self.oe_max)
            step = self._local_step(oe)

            if duty and abs(t - t_on) > self.duty_cycle[0]:
                duty, t_off = False, t
            if not duty and abs(t - t_off) > self.duty_cycle[1]:
                duty, t_on = True, t

            if battery <= low + 1e-12:
                duty, t_off, charging = False, t, True
            elif duty and battery - rate_discharge*step < low and not (charging and self.require_full_recharge is not False):
                step = (battery - low)/rate_discharge
            if self.require_full_recharge is True and charging and battery < high:
                duty = False

            accel = np.sign(step) * self.tmax/mass
            eta = [np.nan, np.nan]
            bounds = [np.nan, np.nan]
            u = np.zeros(3)
            throttle = 0
            if not duty:
                _, _, psi, q, qdot = self._control(oe, accel)
            else:
                alpha, beta, psi, q, qdot = self._control(oe, accel)
                if np.isnan(alpha) or np.isnan(beta):
                    alpha, beta = 0.0, 0.0
                    n_nan += 1
                    if n_nan > self.nan_angles_threshold:
                        self._say("Breaking as angles are nan")
                        self.exitcode = -3
                        break
                else:
                    throttle = 1
                    bounds = [self._resolve_threshold(e, t, oe, mass, battery) for e in (eta_a, eta_r)]
                    if bounds[0] > 0 or bounds[1] > 0:
                        best, worst = self.evaluate_osculating_qdot(oe, accel)
                        eta = [np.abs(qdot/best), np.abs((qdot - worst)/(best - worst))]
                        if eta[0] < bounds[0] or eta[1] < bounds[1]:
                            throttle = 0
                    if throttle == 1:
                        cb = np.cos(beta)
                        u = accel*np.array([cb*np.sin(alpha), cb*np.cos(alpha), np.sin(beta)])

            ptrb = np.zeros(3)
            if self.perturbations is not None:
                ptrb = self.perturbations.get_perturbations_RTN(t, oe, self.elements_type)

            oe = self._propagate(t, step, oe, (self.mu, u, psi[0], psi[1], psi[2], ptrb))
            t += step
            if throttle == 1:
                mass -= self.mdot*step

            if duty:
                battery = np.clip(battery - rate_discharge*step, low, high)
            else:
                battery = np.clip(battery + rate_charge*step, low, high)
                if battery == high:
                    charging = False

            self._record(t, oe, mass, [alpha, beta, throttle], eta, bounds, q, qdot, battery)

            if self.check_convergence(oe, self.oeT, self.woe, self.tol_oe):
                self.exitcode, self.converge = 1, True
                break
            if self.check_convergence(oe, self.oeT, self.woe, self.tol_oe_relaxed):
                n_relaxed += 1
                if n_relaxed >= self.exit_at_relaxed:
                    self.exitcode, self.converge = 2, True
                    break

            if self.verbosity >= 2 and idx % self.print_frequency == 0:
                if idx % (20*self.print_frequency) == 0:
                    print("\\n" + header)
                errors = [oe[i] - self.oeT[i] for i in range(5)]
                print(f" {idx:6.0f} | {t: 1.3e} | {errors[0]: 1.4e} | {errors[1]: 1.4e} | {errors[2]: 1.4e} | {errors[3]: 1.4e} | {errors[4]: 1.4e} | {oe[5]: 1.4e} |")

            if mass <= self.mass_min:
                self._say("Breaking as mass is now under mass_min")
                self.exitcode = -1
                break
            idx += 1

        if self.converge:
            self._say("Target elements successfully reached!")
        elif self.exitcode == 0:
            self._say("Could not arrive to target elements within time")
            self.exitcode = -2
'''))

ref("cart history", ("_qlaw.py", "QLaw.get_cartesian_history", '''
    def get_cartesian_history(self, interpolate=False, steps=None, kind="quadratic", get_t_evals=False):
        """Get Cartesian history of states"""
        to_sv = {"keplerian": kep2sv, "mee_with_a": mee_with_a2sv}[self.elements_type]
        t_evals = None
        if interpolate:
            funcs = self.interpolate_states(kind=kind)
            if steps is None:
                steps = min(8000, abs(int(round(self.times[-1]/0.01))))
                print("Using {} steps for evaluation".format(steps))
            t_evals = np.linspace(self.times[0], self.times[-1], steps)
            states = [np.array([f(t) for f in funcs]) for t in t_evals]
        else:
            states = self.states
        cart = np.zeros((6, len(states)))
        for idx, state in enumerate(states):
            cart[:, idx] = to_sv(np.array(state), self.mu)
        if not get_t_evals:
            return cart
        return cart, t_evals
'''))

ref("interp comp", ("_qlaw.py", "QLaw.interpolate_states", '''
    def interpolate_states(self, kind="quadratic"):
        """Create interpolation states"""
        matrix = np.array(self.states).T
        return tuple(interp1d(self.times, row, kind=kind) for row in matrix)
'''))

ref("qdot comp", ("_qlaw.py", "QLaw.evaluate_osculating_qdot", '''
    def evaluate_osculating_qdot(self, oe, accel_thrust):
        """Evaluate Qdot over the entire orbit"""
        n = self.anomaly_grid_size
        args = (self.oeT, self.rpmin, self.m_petro, self.n_petro, self.r_petro, self.b_petro, self.k_petro, self.wp, self.woe)
        qdots = [
            self.dqdt_fun(self.mu, accel_thrust, np.append(oe[0:5], anomaly), *args)
            for anomaly in np.linspace(oe[5], oe[5] + 2*np.pi, n + 1)[1:]
        ]
        best = worst = qdots[0]
        for qdot in qdots[1:]:
            if abs(qdot) > abs(best):
                best = qdot
            if abs(qdot) < abs(worst):
                worst = qdot
        return best, worst
'''))

ref("save dict", ("_qlaw.py", "QLaw.save_to_dict", '''
    def save_to_dict(self, filepath, canonical_units=None, save_control_angles = False):
        """Export result into a dictionary, saved as json if filepath is provided"""
        if self.elements_type == "keplerian":
            to_mee = kep2mee
        else:
            to_mee = mee_with_a2mee
        states = []
        for oe, mass in zip(self.states, self.masses):
            row = to_mee(oe).tolist()
            row.append(mass)
            states.append(row)
        controls = np.vstack([np.array(self.controls).reshape(-1, 3), np.zeros((1, 3))])
        if not save_control_angles:
            alphas, betas, taus = controls.T
            cb = np.cos(betas)
            controls = np.column_stack((cb*np.sin(alphas), cb*np.cos(alphas), np.sin(betas), taus))
        out = dict(t0=0.0, tf=self.times[-1], times=self.times, canonical_units=canonical_units, states=states, controls=controls)
        if filepath is None:
            return out
        with open(filepath, "w") as f:
            json.dump(out, f, cls=NumpyEncoder, indent=4)
        return out
'''))

ref("pretty loops", ("_qlaw.py", "QLaw.pretty", '''
    def pretty(self):
        """Pretty print"""
        print("Transfer:")
        for name, start, target, weight in zip(self.element_names, self.oe0, self.oeT, self.woe):
            print(f"  {name}  : {start:1.4e} -> {target:1.4e} (weight: {weight:2.2f})")
'''), ("_qlaw.py", "QLaw.pretty_results", '''
    def pretty_results(self):
        """Pretty print results of the problem"""
        final = self.states[-1]
        lines = [f"Exit code : {self.exitcode}", f"Converge  : {self.converge}", "Final state:"]
        for i in range(5):
            error = abs(final[i] - self.oeT[i])
            lines.append(f"  {self.element_names[i]}  : {final[i]:1.4e} (error: {error:1.4e})")
        lines += [f"Transfer time : {self.times[-1]}", f"Final mass    : {self.masses[-1]}"]
        print("\\n".join(lines))
'''), ("_qlaw.py", "QLaw.pretty_settings", '''
    def pretty_settings(self):
        """Pretty print settings about the problem instance"""
        rows = (
            ("Element type  ", self.elements_type),
            ("Element names ", self.element_names),
            ("Integrator    ", self.integrator),
            ("Tolerance     ", self.tol_oe),
            ("Relaxed tolerance ", self.tol_oe_relaxed),
            ("Exit at relaxed   ", self.exit_at_relaxed),
        )
        for label, value in rows:
            print(f"{label}: {value}")
'''))

ref("init table", ("_qlaw.py", "+", '''
_DEFAULT_BOUNDS = {
    "keplerian": ([0.05,1e-4,1e-4,1e-4,1e-4,1e-8], [1e2,0.95,np.pi,np.inf,np.inf,np.inf]),
    "mee_with_a": ([0.05, -np.inf, -np.inf, -np.inf, -np.inf], [1e2, 10.0, 10.0, np.inf, np.inf, np.inf]),
}


def _formulation(elements_type):
    """names, dynamics, control law and convergence check of an element set"""
    if elements_type == "keplerian":
        law, _, _, dqdt = symbolic_qlaw_keplerian()
        return ["a", "e", "i", "raan", "omega", "ta"], eom_kep_gauss, law, dqdt, check_convergence_keplerian
    law, _, _, dqdt = symbolic_qlaw_mee_with_a()
    return ["a", "f", "g", "h", "k", "L"], eom_mee_with_a_gauss, law, dqdt, check_convergence_mee
'''), ("_qlaw.py", "QLaw.__init__", '''
    def __init__(
        self, mu=1.0, rpmin=0.1, k_petro=1.0, m_petro=3.0, n_petro=4.0, r_petro=2.0, b_petro=0.01, wp=1.0,
        elements_type="mee_with_a", integrator="rk4", verbosity=1, anomaly_grid_size=5,
        tol_oe=None, oe_min=None, oe_max=None, nan_angles_threshold=10, print_frequency=200,
        use_sundman=False, perturbations=None, relaxed_tol_factor = 10, exit_at_relaxed = 100,
    ):
        """Construct QLaw object"""
        assert relaxed_tol_factor >= 1, "relaxed_tol_factor must be >= 1"
        self.mu = mu
        self.elements_type = elements_type
        self.integrator = integrator
        self.rpmin, self.k_petro, self.wp = rpmin, k_petro, wp
        self.m_petro, self.n_petro, self.r_petro, self.b_petro = m_petro, n_petro, r_petro, b_petro
        self.anomaly_grid_size = anomaly_grid_size
        self.verbosity = verbosity
        self.print_frequency = print_frequency
        self.nan_angles_threshold = nan_angles_threshold
        self.use_sundman = use_sundman
        self.perturbations = perturbations

        if tol_oe is not None:
            assert len(tol_oe)==5, "tol_oe must have 5 components"
        self.tol_oe = np.array(tol_oe) if tol_oe is not None else np.full(5, 1e-3)
        self.tol_oe_relaxed = self.tol_oe * relaxed_tol_factor
        self.exit_at_relaxed = exit_at_relaxed

        default_min, default_max = _DEFAULT_BOUNDS[elements_type]
        self.oe_min = np.array(default_min if oe_min is None else oe_min)
        self.oe_max = np.array(default_max if oe_max is None else oe_max)

        self.element_names, self.eom, self.lyap_fun, self.dqdt_fun, self.check_convergence = _formulation(elements_type)

        self.step_min, self.step_max, self.ode_tol = 1e-4, 2.0, 1.e-5
        self.ready = self.converge = False
        self.exitcode = 0
        for method in (plot_elements_history, plot_battery_history, plot_controls, plot_trajectory_2d,
                       plot_trajectory_3d, plot_efficiency, plot_Q):
            setattr(self, method.__name__, MethodType(method, self))
        return
'''))

ref("set problem", ("_qlaw.py", "QLaw.set_problem", '''
    def set_problem(
        self, oe0, oeT, mass0, tmax, mdot, tf_max=100000.0, t_step=0.1, mass_min=0.1, woe=None,
        duty_cycle=(1e16,0.0), battery_initial=1.0, battery_capacity=(0.2,1.0),
        battery_charge_discharge_rate=(0.0,0.0), require_full_recharge=False,
    ):
        """Set transfer problem"""
        if len(oe0) != 6:
            raise AssertionError("oe6 must have 6 components")
        if not mass_min >= 1e-2:
            raise AssertionError("mass should be above 0.01 to avoid numerical difficulties")
        if woe is None:
            woe = np.ones(5)
        assert len(woe) == 5, "woe must have 5 components"
        self.woe = np.array(woe)
        self.oe0 = oe0
        self.oeT = oeT[:5] if len(oeT) == 6 else oeT
        settings = {
            "tf_max": tf_max, "t_step": t_step, "mass0": mass0, "tmax": tmax, "mdot": mdot, "mass_min": mass_min,
            "duty_cycle": duty_cycle, "battery_initial": battery_initial, "battery_capacity": battery_capacity,
            "battery_charge_discharge_rate": battery_charge_discharge_rate,
            "require_full_recharge": require_full_recharge,
        }
        for name, value in settings.items():
            setattr(self, name, value)
        self.ready = True
'''))

ref("elements helpers", ("_elements.py", "+", '''
@njit
def _momentum(state):
    """specific angular momentum vector"""
    return np.cross(state[0:3], state[3:6])


@njit
def _node(h):
    """direction of the ascending node"""
    return np.array([-h[1], h[0], 0.0])


@njit
def _acos(x):
    """inverse cosine, safe against rounding"""
    if x > 1.0:
        return 0.0
    if x < -1.0:
        return np.pi
    return np.arccos(x)
'''), ("_elements.py", "get_inclination", '''
    @njit
    def get_inclination(state):
        h = _momentum(state)
        return _acos(h[2]/la.norm(h))
'''), ("_elements.py", "get_raan", '''
    @njit
    def get_raan(state):
        n = _node(_momentum(state))
        return np.arctan2(n[1], n[0])
'''), ("_elements.py", "get_eccentricity", '''
    @njit
    def get_eccentricity(state, mu):
        position, velocity = state[:3], state[3:]
        return np.cross(velocity, _momentum(state))/mu - position/la.norm(position)
'''), ("_elements.py", "get_omega", '''
    @njit
    def get_omega(state, mu):
        n = _node(_momentum(state))
        e = get_eccentricity(state, mu)
        scale = la.norm(n)*la.norm(e)
        if not scale >= 1e-12:
            return np.arctan2(e[1], e[0])
        omega = _acos(np.dot(n, e)/scale)
        return 2*np.pi - omega if e[2] < 0 else omega
'''), ("_elements.py", "get_trueanom", '''
    @njit
    def get_trueanom(state, mu):
        r, v = state[0:3], state[3:6]
        rnorm = la.norm(r)
        h = la.norm(_momentum(state))
        return np.arctan2(h*np.dot(r, v)/rnorm, h*h/rnorm - mu)
'''), ("_elements.py", "get_semiMajorAxis", '''
    @njit
    def get_semiMajorAxis(state, mu):
        h = _momentum(state)
        ecc = get_eccentricity(state, mu)
        p = np.dot(h, h)/mu
        return p/(1.0 - np.dot(ecc, ecc))
'''), ("_elements.py", "get_period", '''
    @njit
    def get_period(state, mu):
        a = get_semiMajorAxis(state, mu)
        if not a < 0:
            return 2*np.pi*np.sqrt(a**3/mu)
        return -1.0
'''))

ref("kep2sv matrices", ("_elements.py", "kep2sv", '''
    @njit
    def kep2sv(kep, mu):
        """Convert Keplerian elements to Cartesian states"""
        sma, ecc, inc, raan, aop, ta = kep
        p = sma*(1 - ecc**2)
        radius = p/(1 + ecc*np.cos(ta))
        speed = np.sqrt(mu/p)
        position = np.array([radius*np.cos(ta), radius*np.sin(ta), 0.0])
        velocity = np.array([-speed*np.sin(ta), speed*(ecc + np.cos(ta)), 0.0])
        rotation = rotmat3(-raan) @ rotmat1(-inc) @ rotmat3(-aop)
        state = np.zeros(6)
        state[:3] = rotation @ position
        state[3:] = rotation @ velocity
        return state
'''), ("_elements.py", "get_orbit_coordinates", '''
    @njit
    def get_orbit_coordinates(oe_kep,mu,steps=200):
        coord = np.empty((6, steps))
        kep = oe_kep.copy()
        for j, ta in enumerate(np.linspace(0.0, 2*np.pi, steps)):
            kep[5] = ta
            coord[:, j] = kep2sv(kep, mu)
        return coord
'''))

ref("mee helpers", ("_elements.py", "+", '''
@njit
def _equinoctial(first, kep):
    """equinoctial elements with the given first element"""
    e, i, raan, om, ta = kep[1], kep[2], kep[3], kep[4], kep[5]
    varpi = raan + om
    tan_half = np.tan(0.5*i)
    return np.array([first, e*np.cos(varpi), e*np.sin(varpi), tan_half*np.cos(raan), tan_half*np.sin(raan), varpi + ta])


@njit
def _one_minus_e2(mee):
    return 1 - mee[1]*mee[1] - mee[2]*mee[2]
'''), ("_elements.py", "kep2mee", '''
    @njit
    def kep2mee(oe_kep):
        """Convert Keplerian elements to MEE"""
        return _equinoctial(oe_kep[0]*(1 - oe_kep[1]**2), oe_kep)
'''), ("_elements.py", "kep2mee_with_a", '''
    @njit
    def kep2mee_with_a(oe_kep):
        return _equinoctial(oe_kep[0], oe_kep)
'''), ("_elements.py", "mee_with_a2mee", '''
    @njit
    def mee_with_a2mee(oe_mee_with_a):
        mee = oe_mee_with_a.copy()
        mee[0] *= _one_minus_e2(mee)
        return mee
'''), ("_elements.py", "mee2mee_with_a", '''
    @njit
    def mee2mee_with_a(oe_mee):
        """Convert MEE to MEE with SMA"""
        out = oe_mee.copy()
        out[0] = oe_mee[0]/_one_minus_e2(oe_mee)
        return out
'''), ("_elements.py", "mee_with_a2sv", '''
    @njit
    def mee_with_a2sv(mee_with_a, mu):
        """Convert MEE with SMA to Cartesian states"""
        return kep2sv(mee_with_a2kep(mee_with_a), mu)
'''), ("_elements.py", "mee2kep", '''
    @njit
    def mee2kep(oe_mee):
        """Convert MEE to Keplerian elements"""
        p, f, g, h, k, l = oe_mee
        e = np.hypot(f, g)
        t2 = h*h + k*k
        raan = np.arctan2(k, h)
        equatorial = h == 0.0 and k == 0.0
        om = np.arctan2(g, f) if equatorial else np.arctan2(g*h - f*k, f*h + g*k)
        inc = np.arctan2(2*np.sqrt(t2), 1 - t2)
        return np.array([p/_one_minus_e2(oe_mee), e, inc, raan, om, l - (raan + om)])
'''))

ref("convergence any", ("_convergence.py", "+", '''
@njit
def _within(error, woe, tol):
    """whether every targeted element is within its tolerance"""
    for idx in range(len(tol)):
        if woe[idx] == 0.0:
            continue
        if not error[idx] <= tol[idx]:
            return False
    return True
'''), ("_convergence.py", "check_convergence_keplerian", '''
    @njit
    def check_convergence_keplerian(oe, oeT, woe, tol_oe):
        error = np.empty(5)
        for i in range(3):
            error[i] = abs(oe[i] - oeT[i])
        for i in range(3, 5):
            error[i] = np.arccos(np.cos(oe[i] - oeT[i]))
        return _within(error, woe, tol_oe)
'''), ("_convergence.py", "check_convergence_mee", '''
    @njit
    def check_convergence_mee(oe, oeT, woe, tol_oe):
        return _within(np.abs(oe[:5] - oeT[:5]), woe, tol_oe)
'''), ("_convergence.py", "elements_safety", '''
    @njit
    def elements_safety(oe, oe_min, oe_max):
        clean = oe.copy()
        clean[:5] = np.minimum(np.maximum(oe_min[:5], oe[:5]), oe_max[:5])
        return clean
'''))

ref("eom loops", ("_eom.py", "+", '''
@njit
def _gauss_matrix(psi_c0, psi_c1, psi_c2, last):
    """stack the columns of psi over the row of the fast angle"""
    psi = np.zeros((6, 3))
    for row in range(5):
        psi[row, 0] = psi_c0[row]
        psi[row, 1] = psi_c1[row]
        psi[row, 2] = psi_c2[row]
    psi[5, :] = last
    return psi
'''), ("_eom.py", "eom_kep_gauss", '''
    @njit
    def eom_kep_gauss(t, state, param):
        mu, u, psi_c0, psi_c1, psi_c2, ptrb_RTN = param
        sma, ecc, _, _, _, ta = state
        p = sma*(1 - ecc**2)
        h = np.sqrt(mu*p)
        r = p/(1 + ecc*np.cos(ta))
        psi = _gauss_matrix(psi_c0, psi_c1, psi_c2, np.array([p*np.cos(ta), -(p + r)*np.sin(ta), 0.0])/(ecc*h))
        doe = psi @ (u + ptrb_RTN)
        doe[5] += h/r**2
        return doe
'''), ("_eom.py", "eom_mee_with_a_gauss", '''
    @njit
    def eom_mee_with_a_gauss(t, state, param):
        mu, u, psi_c0, psi_c1, psi_c2, ptrb_RTN = param
        sma, f, g, h, k, l = state
        p = sma*(1 - f**2 - g**2)
        sinL, cosL = np.sin(l), np.cos(l)
        w = 1 + f*cosL + g*sinL
        acc = u + ptrb_RTN
        psi = _gauss_matrix(psi_c0, psi_c1, psi_c2, np.array([0.0, 0.0, np.sqrt(p/mu)/w*(h*sinL - k*cosL)]))
        doe = np.zeros(6)
        for i in range(6):
            for j in range(3):
                doe[i] += psi[i, j]*acc[j]
        doe[5] += np.sqrt(mu*p)*(w/p)**2
        return doe
'''), ("_eom.py", "eom_mee_gauss", '''
    @njit
    def eom_mee_gauss(t, state, param):
        mu, u, psi_c0, psi_c1, psi_c2, ptrb_RTN = param
        p, f, g, h, k, l = state
        ar, at, an = u + ptrb_RTN
        s, c = np.sin(l), np.cos(l)
        w = 1 + f*c + g*s
        rt = np.sqrt(p/mu)
        hk = h*s - k*c
        s2 = 1 + h**2 + k**2
        return np.array([
            2*p/w*rt*at,
            rt*(ar*s + ((w + 1)*c + f)*at/w - g*hk*an/w),
            rt*(-ar*c + ((w + 1)*s + g)*at/w + f*hk*an/w),
            rt*s2*c*an/(2*w),
            rt*s2*s*an/(2*w),
            np.sqrt(mu*p)*(w/p)**2 + rt*hk*an/w,
        ])
'''))

ref("integrate tables", ("_integrate.py", "+", '''
_B = ((1/4,), (3/32, 9/32), (1932/2197, -7200/2197, 7296/2197),
      (439/216, -8.0, 3680/513, -845/4104), (-8/27, 2.0, -3544/2565, 1859/4104, -11/40))
_C4 = (25/216, 0.0, 1408/2565, 2197/4104, -1/5)
_C5 = (16/135, 0.0, 6656/12825, 28561/56430, -9/50, 2/55)
'''), ("_integrate.py", "rkf45", '''
    @njit
    def rkf45(rhs, t, h, y, p, tol=1e-6):
        """Perform single-step Runge-Kutta 4th order with 5th order step correction"""
        k1 = rhs(t, y, p)
        k2 = rhs(t + h/4, y + h*(_B[0][0]*k1), p)
        k3 = rhs(t + 3*h/8, y + h*(_B[1][0]*k1 + _B[1][1]*k2), p)
        k4 = rhs(t + 12*h/13, y + h*(_B[2][0]*k1 + _B[2][1]*k2 + _B[2][2]*k3), p)
        k5 = rhs(t + h, y + h*(_B[3][0]*k1 + _B[3][1]*k2 + _B[3][2]*k3 + _B[3][3]*k4), p)
        k6 = rhs(t + h/2, y + h*(_B[4][0]*k1 + _B[4][1]*k2 + _B[4][2]*k3 + _B[4][3]*k4 + _B[4][4]*k5), p)
        y_next = y + h*(_C4[0]*k1 + _C4[2]*k3 + _C4[3]*k4 + _C4[4]*k5)
        z_next = y + h*(_C5[0]*k1 + _C5[2]*k3 + _C5[3]*k4 + _C5[4]*k5 + _C5[5]*k6)
        error = np.linalg.norm(y_next - z_next)
        if error == 0.0:
            return y_next, h
        return y_next, 0.84*h*np.sqrt(np.sqrt(tol/error))
'''), ("_integrate.py", "rk4", '''
    @njit
    def rk4(rhs, t, h, y, p):
        half = h/2
        k1 = rhs(t, y, p)
        k2 = rhs(t + half, y + half*k1, p)
        k3 = rhs(t + half, y + half*k2, p)
        k4 = rhs(t + h, y + h*k3, p)
        increment = k1 + k4 + 2*(k2 + k3)
        return y + h*increment/6
'''))

ref("lyapunov split", ("_lyapunov.py", "_u_to_thrust_angles", '''
    @njit
    def _u_to_thrust_angles(u_float):
        """Convert unscaled vector u_float to unit-vector u & thrust angles alpha and beta"""
        ur, ut, un = u_float/la.norm(u_float)
        alpha = np.arctan2(-ur, -ut)
        beta = np.arctan2(-un, np.hypot(ur, ut))
        return np.array([ur, ut, un]), alpha, beta
'''), ("_lyapunov.py", "lyapunov_control_angles", '''
    def lyapunov_control_angles(
            fun_lyapunov_control, mu, f, oe, oeT, rpmin, m_petro, n_petro, r_petro, b_petro, k_petro, wp, woe,
        ):
        """Compute thrust angles from Lyapunov feedback control law"""
        args = (mu, f, oe, oeT, rpmin, m_petro, n_petro, r_petro, b_petro, k_petro, wp, woe)
        u_raw, psi, q, dqdoe = fun_lyapunov_control(*args)
        u, alpha, beta = _u_to_thrust_angles(np.array(u_raw, dtype=float))
        rates = [f*sum(psi[j][i]*u[j] for j in range(3)) for i in range(5)]
        dqdt = sum(grad*rate for grad, rate in zip(dqdoe, rates))
        return alpha, beta, u, psi, q, dqdt
'''))

ref("perturb helpers", ("_perturbations.py", "+", '''
@njit
def _unit(x):
    return x/np.linalg.norm(x)
'''), ("_perturbations.py", "perturbation_third_body_battin", '''
    @njit
    def perturbation_third_body_battin(r, s, mu_third):
        """Third body perturbation acceleration via Battin's formulation"""
        dist = np.linalg.norm(r - s)
        q = np.dot(r, r - 2*s)/np.dot(s, s)
        F = q*(3 + q*(3 + q))/(1 + (1 + q)*np.sqrt(1 + q))
        return -(mu_third/dist**3)*(r + F*s)
'''), ("_perturbations.py", "perturbation_J2", '''
    @njit
    def perturbation_J2(rECI, T_ECI2PA, mu, J2, Re):
        """Compute J2 perturbation"""
        rPA = np.dot(T_ECI2PA, rECI)
        r = np.linalg.norm(rECI)
        ratio = 5*rPA[2]**2/r**2
        factors = np.array([1 - ratio, 1 - ratio, 3 - ratio])
        acc = -1.5*mu*J2*Re**2/r**5*factors*rPA
        return np.dot(T_ECI2PA.T, acc)
'''), ("_perturbations.py", "perturbation_SRP", '''
    def perturbation_SRP(r_sun2sc, AU, k_srp):
        """Compute solar radiation pressure (SRP) perturbation"""
        distance = np.linalg.norm(r_sun2sc)
        return (k_srp*(AU/distance)**2)*(r_sun2sc/distance)
'''), ("_perturbations.py", "pxformECI2RTN", '''
    @njit
    def pxformECI2RTN(rECI, vECI):
        """Compute 3-by-3 transformation matrix from ECI to RTN frame"""
        rot = np.empty((3, 3))
        rot[0] = _unit(rECI)
        rot[2] = _unit(np.cross(rECI, vECI))
        rot[1] = np.cross(rot[2], rot[0])
        return rot
'''), ("_perturbations.py", "SpicePerturbations.get_perturbations_RTN", '''
    def get_perturbations_RTN(self, t, oe, elements_type):
        """Compute perturbation in RTN frame"""
        converters = {"keplerian": kep2sv, "mee_with_a": mee_with_a2sv}
        if elements_type not in converters:
            raise ValueError(f"Invalid elements type {elements_type}")
        state = converters[elements_type](oe, self.obs_mu)
        r, v = state[:3], state[3:]
        et = self.et_ref + t * self.TU

        def position(body):
            km, _ = spice.spkpos(body, et, self.frame_qlaw, "NONE", self.obs_id)
            return km/self.LU

        acc = np.zeros(3)
        if self.third_bodies_gms and self.third_bodies_names:
            for gm, body in zip(self.third_bodies_gms, self.third_bodies_names):
                acc = acc + perturbation_third_body_battin(r, position(body), gm)
        if self.use_J2:
            acc = acc + perturbation_J2(r, spice.pxform(self.frame_qlaw, self.frame_PA, et), self.obs_mu, self.J2, self.Re)
        if self.use_SRP:
            AU = spice.convrt(1.0, "AU", "km")/self.LU
            acc = acc + perturbation_SRP(r - position("10"), AU, self.k_srp)
        return np.dot(pxformECI2RTN(r, v), acc)
'''))

ref("plots helpers", ("_plot_methods.py", "+", '''
def _scaled(values, factor):
    """values as an array, in the units of the plot"""
    return np.array(values)*factor


def _orbit(self, elements):
    """outline of the orbit with the given slow elements"""
    oe = np.append(elements[:5], 0.0)
    if self.elements_type == "mee_with_a":
        oe = mee_with_a2kep(oe)
    return get_orbit_coordinates(oe, self.mu)
'''), ("_plot_methods.py", "plot_trajectory_2d", '''
    def plot_trajectory_2d(self, figsize=(6,6), interpolate=False, steps=None):
        """Plot trajectory in xy-plane"""
        cart = self.get_cartesian_history(interpolate, steps)
        fig, ax = plt.subplots(1,1,figsize=figsize)
        for elements, label, color in ((self.oe0, "Initial", "darkblue"), (self.oeT, "Final", "forestgreen")):
            x, y = _orbit(self, elements)[:2]
            ax.plot(x, y, label=label, c=color)
        x, y = cart[0], cart[1]
        ax.plot(x, y, label="transfer", c="crimson", lw=0.4)
        for at, marker in ((0, "x"), (-1, "o")):
            ax.scatter(x[at], y[at], label=None, c="crimson", marker=marker)
        ax.set_aspect('equal')
        return fig, ax
'''), ("_plot_methods.py", "plot_trajectory_3d", '''
    def plot_trajectory_3d(self, figsize=(6,6), interpolate=True, steps=None, plot_sphere=True, sphere_radius=0.35, scale=1.02, lw=0.4):
        """Plot trajectory in xyz"""
        cart = self.get_cartesian_history(interpolate, steps)
        fig = plt.figure(figsize=figsize)
        ax = fig.add_subplot(projection='3d')
        xyz = cart[0:3]
        ax.plot(*xyz, label="transfer", c="crimson", lw=lw)
        ax.scatter(*xyz[:,0], label=None, c="crimson", marker="x")
        ax.scatter(*xyz[:,-1], label=None, c="crimson", marker="o")
        orb0 = _orbit(self, self.oe0)
        orbT = _orbit(self, self.oeT)
        ax.plot(orb0[0], orb0[1], orb0[2], label="Initial", c="darkblue")
        ax.plot(orbT[0], orbT[1], orbT[2], label="Final", c="forestgreen")
        if plot_sphere:
            plot_sphere_wireframe(ax, sphere_radius)
            limits = [[min(axis), max(axis)] for axis in xyz]
            set_equal_axis(ax, limits[0], limits[1], limits[2], scale=scale)
        ax.set(xlabel="x", ylabel="y", zlabel="z")
        return fig, ax
'''), ("_plot_methods.py", "plot_battery_history", '''
    def plot_battery_history(self, figsize=(9,5), TU=1.0, BU=1.0, time_unit_name="TU", battery_unit_name="BU"):
        """Plot battery history"""
        fig, ax = plt.subplots(1,1,figsize=figsize)
        ax.plot(_scaled(self.times, TU), _scaled(self.battery, BU), color='k')
        low, high = self.battery_capacity
        ax.axhline(low*BU, color='r', linestyle='--', label="min capacity")
        ax.axhline(high*BU, color='g', linestyle='--', label="max capacity")
        ax.set_xlabel(f"Time, {time_unit_name}")
        ax.set_ylabel(f"Battery, {battery_unit_name}")
        return fig, ax
'''), ("_plot_methods.py", "plot_controls", '''
    def plot_controls(self, figsize=(9,5), TU=1.0, time_unit_name="TU", show_anomaly=True):
        """Plot control time history"""
        fig, ax = plt.subplots(1,1,figsize=figsize)
        times = _scaled(self.times, TU)
        if show_anomaly:
            anomalies = np.array([state[5] for state in self.states])
            ax.plot(times, np.degrees(wrap(anomalies)), color='grey', label="Anomaly", lw=0.35)
        table = np.array(self.controls)
        curves = (("alpha", np.degrees(table[:,0])), ("beta", np.degrees(table[:,1])), ("throttle, %", 100*table[:,2]))
        for label, values in curves:
            ax.step(times[:-1], values, where='pre', marker='o', markersize=2, label=label)
        ax.set(xlabel=f"Time, {time_unit_name}", ylabel="Control angles and throttle")
        ax.legend()
        return fig, ax
'''), ("_plot_methods.py", "plot_efficiency", '''
    def plot_efficiency(self, figsize=(9,6), TU=1.0, time_unit_name="TU"):
        """Plot efficiency"""
        fig, axs = plt.subplots(2,1,figsize=figsize)
        times = _scaled(self.times[:-1], TU)
        values, bounds = np.array(self.etas), np.array(self.etas_bounds)
        for col, (ax, name, kind) in enumerate(zip(axs, ("eta_a", "eta_r"), ("Absolute", "Relative"))):
            ax.plot(times, values[:,col], label=name)
            ax.plot(times, bounds[:,col], label=name + "_min", linestyle='-', color='red')
            ax.set(xlabel=f"Time, {time_unit_name}", ylabel=f"{kind} efficiency")
            ax.legend()
        plt.tight_layout()
        return fig, axs[1]
'''), ("_plot_methods.py", "plot_Q", '''
    def plot_Q(self, figsize=(9,6), TU=1.0, time_unit_name="TU"):
        """Plot quotient history"""
        times = [t*TU for t in self.times[:-1]]
        fig, ax = plt.subplots(1,1,figsize=figsize)
        for series, label in [(self.Qs, "Q"), (self.dQdts, "|dQ/dt|, [1/TU]")]:
            ax.step(times, series, label=label)
        ax.set_yscale("log")
        ax.grid(True, alpha=0.3)
        ax.legend()
        plt.tight_layout()
        return fig, ax
'''))

ref("plot elements", ("_plot_methods.py", "plot_elements_history", '''
    def plot_elements_history(self, figsize=(10,6), to_keplerian=False, TU=1.0, time_unit_name="TU", plot_mass=True, plot_periapsis=False):
        """Plot elements time history"""
        convert = to_keplerian and self.elements_type == "mee_with_a"
        if convert:
            oes = np.array([mee_with_a2kep(state) for state in self.states]).T
            target = mee_with_a2kep(np.append(self.oeT, 0.0))
            labels = ["a", "e", "i", "raan", "om", "ta"]
            deg = 180/np.pi
            scales = [1, 1, deg, deg, deg, deg]
        else:
            oes = np.array(self.states).T
            target = self.oeT
            labels = self.element_names
            scales = [1]*6
        times = np.array(self.times)*TU
        fig, axs = plt.subplots(2,3,figsize=figsize)
        panels = axs.flatten()
        for panel in panels:
            panel.grid(True, alpha=0.3)
        for i in range(5):
            panel = panels[i]
            if convert:
                panel.axhline(target[i]*scales[i], color='r', linestyle='--')
            else:
                low, high = target[i] - self.tol_oe[i], target[i] + self.tol_oe[i]
                panel.fill_between(times, low*scales[i], high*scales[i], color='red', alpha=0.25)
            panel.plot(times, scales[i]*oes[i], label=labels[i])
            panel.set(xlabel=f"Time, {time_unit_name}", ylabel=labels[i])
        if plot_periapsis:
            if convert or self.elements_type == "keplerian":
                ecc = oes[1]
            else:
                ecc = np.hypot(oes[1], oes[2])
            panels[0].plot(times, oes[0] - oes[0]*ecc)
        last = panels[5]
        if plot_mass:
            last.plot(times, self.masses)
            ylabel = "Mass"
        else:
            last.plot(times, np.degrees(np.mod(oes[5], 2*np.pi)), label=labels[5])
            ylabel = labels[5]
        last.set(xlabel=f"Time, {time_unit_name}", ylabel=ylabel)
        plt.tight_layout()
        return fig, panels[4]
'''))

ref("plot helper mesh", ("_plot_helper.py", "get_sphere_coordinates", '''
    def get_sphere_coordinates(radius, center=None):
        """Get x,y,z coordinates for sphere"""
        cx, cy, cz = center if center is not None else (0.0, 0.0, 0.0)
        u, v = np.mgrid[0:2*np.pi:20j, 0:np.pi:10j]
        x = radius*np.sin(v)*np.cos(u) + cx
        y = radius*np.sin(v)*np.sin(u) + cy
        z = radius*np.cos(v) + cz
        return x, y, z
'''), ("_plot_helper.py", "get_ellipsoid_coordinates", '''
    def get_ellipsoid_coordinates(rx, ry, rz, center=None, n=60):
        """Get x,y,z coordinates for ellipsoid"""
        if center is None:
            center = np.zeros(3)
        u = np.linspace(0, 2 * np.pi, n)
        v = np.linspace(0, np.pi, n)
        rho = np.sin(v)
        unit = (np.outer(np.cos(u), rho), np.outer(np.sin(u), rho), np.outer(np.ones(n), np.cos(v)))
        return tuple(c + r*e for c, r, e in zip(center, (rx, ry, rz), unit))
'''), ("_plot_helper.py", "set_equal_axis", '''
    def set_equal_axis(ax, xlims, ylims, zlims, scale=1.0, dim3=True):
        """Helper function to set equal axis"""
        spans = [max(lims) - min(lims) for lims in (xlims, ylims, zlims)]
        half = max(spans)/2
        mids = [(max(lims) + min(lims))/2 for lims in (xlims, ylims, zlims)]
        ax.set_xlim(mids[0] - scale*half, mids[0] + scale*half)
        ax.set_ylim(mids[1] - scale*half, mids[1] + scale*half)
        if dim3:
            ax.set_box_aspect((half, half, half))
            ax.set_zlim(mids[2] - scale*half, mids[2] + scale*half)
'''))

_SYM_TAIL = '''
def _weighted_quotient(penalty, woe, soe, doe, oedot):
    total = 0
    for w, s, d, rate in zip(woe, soe, doe, oedot):
        total = total + w*s*(d/rate)**2
    return penalty*total


def _descent(q, oe, psi, accel):
    """gradient of Q, primer direction and rate of Q along it"""
    grad = [sym.diff(q, x) for x in oe[:5]]
    u = [sum(column[i]*grad[i] for i in range(5)) for column in psi]
    umag = sym.sqrt(sum(c**2 for c in u))
    unit = [c/umag for c in u]
    rate = accel*sum(grad[i]*sum(psi[j][i]*unit[j] for j in range(3)) for i in range(5))
    return grad, u, rate


def _build(args, outputs, cse):
    return tuple(lambdify(args, out, "numpy", cse=cse) for out in outputs)
'''
ref("symbolic mee flat", ("_symbolic.py", "+", _SYM_TAIL), ("_symbolic.py", "symbolic_qlaw_mee_with_a", '''
    def symbolic_qlaw_mee_with_a(cse = True):
        """Generate symbolic function for MEE Q-Law"""
        rpmin, k_petro, m_petro, n_petro, r_petro, b_petro = sym.symbols("rpmin k_petro m_petro n_petro r_petro b_petro")
        wp, mu, accel = sym.symbols("Wp mu accel")
        oe = sym.symbols("a f g h k l")
        oeT = sym.symbols("a_T f_T g_T h_T k_T")
        woe = sym.symbols("w_a w_f w_g w_h w_k")
        a, f, g, h, k, l = oe

        e2 = f**2 + g**2
        e = sym.sqrt(e2)
        p = a*(1 - e2)
        ang_mom = sym.sqrt(mu*p)
        sqrt_pmu = sym.sqrt(p/mu)
        s2 = 1 + h**2 + k**2
        ta = l - sym.atan2(g, f)
        r = p/(1 + e*sym.cos(ta))

        doe = [x - xT for x, xT in zip(oe, oeT)]
        fg = 2*accel*sqrt_pmu
        half = accel*sqrt_pmu*s2/2
        oedot = [
            2*accel*a*sym.sqrt(a/mu*(1 + e)/(1 - e)),
            fg,
            fg,
            half/(sym.sqrt(1 - g**2) + f),
            half/(sym.sqrt(1 - f**2) + g),
        ]
        aT = oeT[0]
        soe = [(1 + (sym.sqrt((a - aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1, 1, 1, 1]
        penalty = 1 + wp*sym.exp(k_petro*(1 - a*(1 - e)/rpmin))
        q = _weighted_quotient(penalty, woe, soe, doe, oedot)

        c, s = sym.cos(l), sym.sin(l)
        w = 1 + f*c + g*s
        fac = sqrt_pmu/w
        hk = h*s - k*c
        psi = [
            [2*a**2/ang_mom*e*sym.sin(ta), sqrt_pmu*s, -sqrt_pmu*c, 0.0, 0.0],
            [2*a**2/ang_mom*p/r, fac*((w + 1)*c + f), fac*((w + 1)*s + g), 0.0, 0.0],
            [0.0, -g*hk*fac, f*hk*fac, fac*s2*c/2, fac*s2*s/2],
        ]
        dqdoe, u, dqdt = _descent(q, oe, psi, accel)
        args = [mu, accel, list(oe), list(oeT), rpmin, m_petro, n_petro, r_petro, b_petro, k_petro, wp, list(woe)]
        return _build(args, ([u, psi, q, dqdoe], psi, dqdoe, dqdt), cse)
'''))
ref("symbolic kep flat", ("_symbolic.py", "+", _SYM_TAIL), ("_symbolic.py", "symbolic_qlaw_keplerian", '''
    def symbolic_qlaw_keplerian(cse = True):
        """Generate symbolic function for Keplerian Q-Law"""
        names = "rpmin k_petro m_petro n_petro r_petro b_petro Wp mu f"
        rpmin, k_petro, m_petro, n_petro, r_petro, b_petro, wp, mu, f = sym.symbols(names)
        oe = list(sym.symbols("a e i Omega omega theta"))
        oeT = list(sym.symbols("a_T e_T i_T Omega_T omega_T"))
        woe = list(sym.symbols("w_a w_e w_i w_Omega w_omega"))
        a, e, i, ra, om, ta = oe
        aT, eT, iT, raT, omT = oeT

        p = a*(1 - e**2)
        h = sym.sqrt(mu*p)
        errors = [a - aT, e - eT, i - iT] + [sym.acos(sym.cos(x - xT)) for x, xT in ((ra, raT), (om, omT))]

        def plane_rate(along, across):
            return p*f/(h*(sym.sqrt(1 - e**2*along**2) - e*sym.sqrt(across**2)))

        idot = plane_rate(sym.sin(om), sym.cos(om))
        radot = plane_rate(sym.cos(om), sym.sin(om))/sym.sin(i)

        ratio = (1 - e**2)/(2*e**3)
        root = sym.sqrt(ratio**2 + 1/27)
        cos_xx = (root + ratio)**(1/3) - (root - ratio)**(1/3) - 1/e
        r_xx = p/(1 + e*cos_xx)
        omdot_i = f/(e*h)*sym.sqrt((p*cos_xx)**2 + (p + r_xx)**2*(1 - cos_xx**2))
        omdot_o = sym.sqrt(sym.cos(i)**2)*radot
        rates = [
            2*f*a*sym.sqrt(a/mu*(1 + e)/(1 - e)),
            2*p*f/h,
            idot,
            radot,
            (omdot_i + b_petro*omdot_o)/(1 + b_petro),
        ]
        scale = (1 + (sym.sqrt((a - aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro)
        penalty = 1 + wp*sym.exp(k_petro*(1 - a*(1 - e)/rpmin))
        q = _weighted_quotient(penalty, woe, [scale, 1, 1, 1, 1], errors, rates)

        r = p/(1 + e*sym.cos(ta))
        st, ct = sym.sin(ta), sym.cos(ta)
        su, cu = sym.sin(ta + om), sym.cos(ta + om)
        psi = [
            [2*a**2*e*st/h, p*st/h, 0.0, 0.0, -p*ct/(e*h)],
            [2*a**2*p/(r*h), ((p + r)*ct + r*e)/h, 0.0, 0.0, (p + r)*st/(e*h)],
            [0.0, 0.0, r*cu/h, r*su/(h*sym.sin(i)), -r*su/(h*sym.tan(i))],
        ]
        grad, u, dqdt = _descent(q, oe, psi, f)
        args = [mu, f, oe, oeT, rpmin, m_petro, n_petro, r_petro, b_petro, k_petro, wp, woe]
        return _build(args, ([u, psi, q, grad], psi, grad, dqdt), cse)
'''))
