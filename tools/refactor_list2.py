# second batch: other idioms (state objects, closures, itertools, dataclasses, properties, generators)
ref("solve state objects", ("_qlaw.py", "+", '''
class _DutyCycle:
    """ON/OFF cycle of the thruster"""
    def __init__(self, on, off):
        self.on, self.off = on, off
        self.active = True
        self.last_on = 0.0
        self.last_off = 0.0

    def update(self, t):
        if self.active and abs(t - self.last_on) > self.on:
            self.switch_off(t)
        if not self.active and abs(t - self.last_off) > self.off:
            self.active = True
            self.last_on = t

    def switch_off(self, t):
        self.active = False
        self.last_off = t


class _Battery:
    """Battery with bounded level"""
    def __init__(self, level, capacity, rates):
        self.level = level
        self.empty, self.full = capacity[0], capacity[1]
        self.charge_rate, self.discharge_rate = rates[0], rates[1]
        self.charging = False

    @property
    def depleted(self):
        return self.level <= self.empty + 1e-12

    def would_deplete(self, dt):
        return self.level - self.discharge_rate*dt < self.empty

    def time_left(self):
        return (self.level - self.empty)/self.discharge_rate

    def discharge(self, dt):
        self.level = np.clip(self.level - self.discharge_rate*dt, self.empty, self.full)

    def charge(self, dt):
        self.level = np.clip(self.level + self.charge_rate*dt, self.empty, self.full)
        if self.level == self.full:
            self.charging = False
'''), ("_qlaw.py", "QLaw.solve", '''
    def solve(self, eta_a=0.0, eta_r=0.0):
        """Propagate and solve control problem"""
        assert self.ready == True, "Please first call `set_problem()`"
        if not (isinstance(eta_a, float) or callable(eta_a)):
            raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
        if not (isinstance(eta_r, float) or callable(eta_r)):
            raise ValueError("Invalid type for `eta_r`. Expected float or callable function.")

        self.converge, self.exitcode = False, 0
        t_iter, oe_iter, mass_iter = 0.0, self.oe0, self.mass0
        battery = _Battery(self.battery_initial, self.battery_capacity, self.battery_charge_discharge_rate)
        duty = _DutyCycle(*self.duty_cycle)

        self.Qs, self.dQdts, self.controls, self.etas, self.etas_bounds = [], [], [], [], []
        self.times = [t_iter]
        self.states = [oe_iter]
        self.masses = [mass_iter]
        self.battery = [self.battery_initial]
        n_relaxed_cleared = 0
        n_nan_angles = 0
        alpha, beta = 0.0, 0.0
        if self.verbosity >= 2:
            self.disable_tqdm = True
        header = " iter   |  time      |  del1       |  del2       |  del3       |  del4       |  del5       |  el6        |"
        keplerian = self.elements_type == "keplerian"

        idx = 0
        while True:
            if not abs(t_iter) < abs(self.tf_max):
                break
            if keplerian:
                oe_iter = elements_safety(oe_iter, self.oe_min, self.oe_max)

            dt = self.t_step
            if self.use_sundman:
                if keplerian:
                    ecc, E0 = oe_iter[1], ta2ea(oe_iter[5], oe_iter[1])
                else:
                    ecc, E0 = np.sqrt(oe_iter[1]**2 + oe_iter[2]**2), mee2ea(oe_iter)
                E1 = E0 + self.t_step
                dM = (E1 - ecc*np.sin(E1)) - (E0 - ecc*np.sin(E0))
                dt = dM*np.sqrt(oe_iter[0]**3/self.mu)

            duty.update(t_iter)
            if battery.depleted:
                duty.switch_off(t_iter)
                battery.charging = True
            elif battery.would_deplete(dt) and duty.active:
                if not battery.charging or self.require_full_recharge is False:
                    dt = battery.time_left()
            if self.require_full_recharge is True and battery.charging and battery.level < battery.full:
                duty.active = False

            accel = np.sign(dt) * self.tmax/mass_iter
            angles = lyapunov_control_angles(
                self.lyap_fun, self.mu, accel, oe_iter, self.oeT, self.rpmin, self.m_petro, self.n_petro,
                self.r_petro, self.b_petro, self.k_petro, self.wp, self.woe)
            psi, q, qdot_current = angles[3:6]
            eta, bounds = [np.nan]*2, [np.nan]*2
            throttle, u = 0, np.zeros(3)
            if duty.active:
                alpha, beta = angles[0], angles[1]
                if np.isnan(alpha) or np.isnan(beta):
                    alpha = beta = 0.0
                    n_nan_angles += 1
                    if n_nan_angles > self.nan_angles_threshold:
                        if self.verbosity > 0:
                            print("Breaking as angles are nan")
                        self.exitcode = -3
                        break
                else:
                    point = (t_iter, oe_iter, mass_iter, battery.level)
                    bounds = [eta_a if isinstance(eta_a, float) else eta_a(*point),
                              eta_r if isinstance(eta_r, float) else eta_r(*point)]
                    throttle = 1
                    if max(bounds) > 0:
                        lo, hi = self.evaluate_osculating_qdot(oe_iter, accel)
                        eta = [np.abs(qdot_current/lo), np.abs((qdot_current - hi)/(lo - hi))]
                        if any(e < b for e, b in zip(eta, bounds)):
                            throttle = 0
                    if throttle:
                        u = accel*np.array([np.cos(beta)*np.sin(alpha), np.cos(beta)*np.cos(alpha), np.sin(beta)])

            ptrb_RTN = np.zeros(3)
            if self.perturbations is not None:
                ptrb_RTN = self.perturbations.get_perturbations_RTN(t_iter, oe_iter, self.elements_type)

            ode_params = (self.mu, u, *psi, ptrb_RTN)
            if self.integrator == "rk4":
                oe_iter = rk4(self.eom, t_iter, dt, oe_iter, ode_params)
            elif self.integrator == "rkf45":
                oe_iter = rkf45(self.eom, t_iter, dt, oe_iter, ode_params, self.ode_tol)[0]
            else:
                raise ValueError("integrator name invalid!")
            t_iter = t_iter + dt
            mass_iter = mass_iter - throttle*self.mdot*dt
            (battery.discharge if duty.active else battery.charge)(dt)

            for history, value in (
                (self.times, t_iter), (self.states, oe_iter), (self.masses, mass_iter),
                (self.controls, [alpha, beta, throttle]), (self.etas, eta), (self.etas_bounds, bounds),
                (self.Qs, q), (self.dQdts, qdot_current), (self.battery, battery.level),
            ):
                history.append(value)

            if self.check_convergence(oe_iter, self.oeT, self.woe, self.tol_oe) == True:
                self.exitcode, self.converge = 1, True
                break
            if self.check_convergence(oe_iter, self.oeT, self.woe, self.tol_oe_relaxed) == True:
                n_relaxed_cleared += 1
                if n_relaxed_cleared >= self.exit_at_relaxed:
                    self.exitcode, self.converge = 2, True
                    break

            if self.verbosity >= 2 and np.mod(idx,self.print_frequency)==0:
                if np.mod(idx, 20*self.print_frequency) == 0:
                    print("\\n" + header)
                dels = " | ".join(f"{oe_iter[j]-self.oeT[j]: 1.4e}" for j in range(5))
                print(f" {idx:6.0f} | {t_iter: 1.3e} | {dels} | {oe_iter[5]: 1.4e} |")

            if mass_iter <= self.mass_min:
                if self.verbosity > 0:
                    print("Breaking as mass is now under mass_min")
                self.exitcode = -1
                break
            idx += 1

        if self.converge:
            message = "Target elements successfully reached!"
        elif self.exitcode == 0:
            message = "Could not arrive to target elements within time"
            self.exitcode = -2
        else:
            return
        if self.verbosity > 0:
            print(message)
'''))

ref("solve closures", ("_qlaw.py", "QLaw.solve", '''
    def solve(self, eta_a=0.0, eta_r=0.0):
        """Propagate and solve control problem"""
        assert self.ready == True, "Please first call `set_problem()`"

        def threshold(name, eta):
            if isinstance(eta, float):
                return lambda *args: eta
            if callable(eta):
                return eta
            raise ValueError("Invalid type for `" + name + "`. Expected float or callable function.")

        eta_a_fun = threshold("eta_a", eta_a)
        eta_r_fun = threshold("eta_r", eta_r)
        verbose = self.verbosity > 0

        def finish(code, message=None):
            self.exitcode = code
            self.converge = code in (1, 2)
            if message is not None and verbose:
                print(message)

        def law(oe, accel):
            return lyapunov_control_angles(
                fun_lyapunov_control=self.lyap_fun, oe=oe, oeT=self.oeT, f=accel, mu=self.mu, woe=self.woe, wp=self.wp,
                **{key: getattr(self, key) for key in ("rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro")})

        finish(0)
        t = 0.0
        oe, mass, level = self.oe0, self.mass0, self.battery_initial
        for name in ("Qs", "dQdts", "controls", "etas", "etas_bounds"):
            setattr(self, name, [])
        self.times, self.states, self.masses, self.battery = [t], [oe], [mass], [level]
        if self.verbosity >= 2:
            self.disable_tqdm = True
        duty, charging = True, False
        t_last_ON, t_last_OFF = 0.0, 0.0
        alpha, beta = 0.0, 0.0
        counters = {"relaxed": 0, "nan": 0}
        on_time, off_time = self.duty_cycle[0], self.duty_cycle[1]
        floor, ceiling = self.battery_capacity[0], self.battery_capacity[1]
        up, down = self.battery_charge_discharge_rate[0], self.battery_charge_discharge_rate[1]

        def sundman_step(oe):
            if self.elements_type == "keplerian":
                ecc, E0 = oe[1], ta2ea(oe[5], oe[1])
            else:
                ecc, E0 = np.hypot(oe[1], oe[2]), mee2ea(oe)
            M = lambda E: E - ecc*np.sin(E)
            n = np.sqrt(self.mu/oe[0]**3)
            return (M(E0 + self.t_step) - M(E0))/n

        idx = 0
        while abs(self.times[-1]) < abs(self.tf_max):
            if self.elements_type == "keplerian":
                oe = elements_safety(oe, self.oe_min, self.oe_max)
            step = sundman_step(oe) if self.use_sundman else self.t_step

            if duty is True and abs(t - t_last_ON) > on_time:
                duty = False
                t_last_OFF = t
            if duty is False and abs(t - t_last_OFF) > off_time:
                duty = True
                t_last_ON = t
            if battery_low := bool(level <= floor + 1e-12):
                duty, charging = False, True
                t_last_OFF = t
            if not battery_low and duty and level - down*step < floor:
                if (not charging) or (not self.require_full_recharge):
                    step = (level - floor)/down
            if self.require_full_recharge and charging and level < ceiling:
                duty = False

            accel = np.sign(step)*self.tmax/mass
            thrusting = False
            values, limits = (np.nan, np.nan), (np.nan, np.nan)
            new_alpha, new_beta, _, psi, q, qdot = law(oe, accel)
            if duty:
                bad = np.isnan(new_alpha) or np.isnan(new_beta)
                alpha, beta = (0.0, 0.0) if bad else (new_alpha, new_beta)
                if bad:
                    counters["nan"] += 1
                    if counters["nan"] > self.nan_angles_threshold:
                        finish(-3, "Breaking as angles are nan")
                        break
                else:
                    thrusting = True
                    limits = (eta_a_fun(t, oe, mass, level), eta_r_fun(t, oe, mass, level))
                    if limits[1] > 0 or limits[0] > 0:
                        qmin, qmax = self.evaluate_osculating_qdot(oe, accel)
                        values = (np.abs(qdot/qmin), np.abs((qdot - qmax)/(qmin - qmax)))
                        thrusting = not (values[0] < limits[0] or values[1] < limits[1])
            if thrusting:
                direction = np.array([np.cos(beta)*np.sin(alpha), np.cos(beta)*np.cos(alpha), np.sin(beta)])
                u = accel*direction
            else:
                u = np.zeros((3,))

            if self.perturbations is None:
                extra = np.zeros(3,)
            else:
                extra = self.perturbations.get_perturbations_RTN(t, oe, self.elements_type)
            params = (self.mu, u, psi[0], psi[1], psi[2], extra)
            if self.integrator == "rk4":
                oe = rk4(self.eom, t, step, oe, params)
            elif self.integrator == "rkf45":
                oe, _ = rkf45(self.eom, t, step, oe, params, self.ode_tol)
            else:
                raise ValueError("integrator name invalid!")

            t += step
            mass -= self.mdot*step if thrusting else 0.0
            change = -down*step if duty else up*step
            level = np.clip(level + change, floor, ceiling)
            charging = charging and not (not duty and level == ceiling)

            self.times.append(t)
            self.states.append(oe)
            self.masses.append(mass)
            self.controls.append([alpha, beta, int(thrusting)])
            self.etas.append(list(values))
            self.etas_bounds.append(list(limits))
            self.Qs.append(q)
            self.dQdts.append(qdot)
            self.battery.append(level)

            converged = lambda tol: self.check_convergence(oe, self.oeT, self.woe, tol)
            if converged(self.tol_oe):
                finish(1)
                break
            counters["relaxed"] += 1 if converged(self.tol_oe_relaxed) else 0
            if converged(self.tol_oe_relaxed) and counters["relaxed"] >= self.exit_at_relaxed:
                finish(2)
                break

            if self.verbosity >= 2 and idx % self.print_frequency == 0:
                if idx % (20*self.print_frequency) == 0:
                    print("\\n iter   |  time      |  del1       |  del2       |  del3       |  del4       |  del5       |  el6        |")
                d = [oe[i] - self.oeT[i] for i in range(5)]
                print(" {:6.0f} | {: 1.3e} | {: 1.4e} | {: 1.4e} | {: 1.4e} | {: 1.4e} | {: 1.4e} | {: 1.4e} |".format(idx, t, *d, oe[5]))
            if mass <= self.mass_min:
                finish(-1, "Breaking as mass is now under mass_min")
                break
            idx = idx + 1

        if not self.converge and self.exitcode == 0:
            finish(-2, "Could not arrive to target elements within time")
        elif self.converge and verbose:
            print("Target elements successfully reached!")
'''))

ref("cart generator", ("_qlaw.py", "+QLaw", '''
    def _to_cartesian(self, oe):
        """position and velocity of a state"""
        if self.elements_type == "keplerian":
            return kep2sv(np.asarray(oe), self.mu)
        return mee_with_a2sv(np.asarray(oe), self.mu)

    def _sampled(self, steps, kind):
        """times and interpolated states"""
        funs = self.interpolate_states(kind)
        t_evals = np.linspace(self.times[0], self.times[-1], num=steps)
        return t_evals, (np.array([fun(t) for fun in funs]) for t in t_evals)
'''), ("_qlaw.py", "QLaw.get_cartesian_history", '''
    def get_cartesian_history(self, interpolate=False, steps=None, kind="quadratic", get_t_evals=False):
        """Get Cartesian history of states"""
        if not interpolate:
            t_evals = None
            columns = [self._to_cartesian(oe) for oe in self.states]
        else:
            if steps is None:
                span = abs(int(round(self.times[-1]/0.01)))
                steps = span if span < 8000 else 8000
                print(f"Using {steps} steps for evaluation")
            t_evals, states = self._sampled(steps, kind)
            columns = [self._to_cartesian(oe) for oe in states]
        cart = np.stack(columns, axis=1)
        return (cart, t_evals) if get_t_evals else cart
'''), ("_qlaw.py", "QLaw.interpolate_states", '''
    def interpolate_states(self, kind="quadratic"):
        """Create interpolation states"""
        table = np.vstack(self.states)
        functions = []
        for column in range(table.shape[1]):
            functions.append(interp1d(self.times, table[:, column], kind=kind))
        return tuple(functions)
'''))

ref("qdot extremes", ("_qlaw.py", "+QLaw", '''
    def _qdot(self, oe, accel):
        return self.dqdt_fun(self.mu, accel, oe, self.oeT, self.rpmin, self.m_petro, self.n_petro,
                             self.r_petro, self.b_petro, self.k_petro, self.wp, self.woe)
'''), ("_qlaw.py", "QLaw.evaluate_osculating_qdot", '''
    def evaluate_osculating_qdot(self, oe, accel_thrust):
        """Evaluate Qdot over the entire orbit"""
        step = 2*np.pi/self.anomaly_grid_size
        points = [oe[5] + step*(k + 1) for k in range(self.anomaly_grid_size)]
        qdots = []
        for point in points:
            trial = oe.copy()
            trial[5] = point
            qdots.append(self._qdot(trial, accel_thrust))
        sizes = np.abs(qdots)
        return qdots[np.argmax(sizes)], qdots[np.argmin(sizes)]
'''))

ref("save steps", ("_qlaw.py", "+QLaw", '''
    def _control_table(self, angles):
        """one row per stored time, as angles or as direction, with the throttle last"""
        table = np.zeros((len(self.controls) + 1, 3))
        for i, control in enumerate(self.controls):
            table[i] = control
        if angles:
            return table
        alpha, beta, tau = table[:, 0], table[:, 1], table[:, 2]
        out = np.empty((len(table), 4))
        out[:, 0] = np.cos(beta)*np.sin(alpha)
        out[:, 1] = np.cos(beta)*np.cos(alpha)
        out[:, 2] = np.sin(beta)
        out[:, 3] = tau
        return out
'''), ("_qlaw.py", "QLaw.save_to_dict", '''
    def save_to_dict(self, filepath, canonical_units=None, save_control_angles = False):
        """Export result into a dictionary"""
        convert = {"keplerian": kep2mee, "mee_with_a": mee_with_a2mee}[self.elements_type]
        initial_guess = {"t0": 0.0, "tf": self.times[-1], "times": self.times, "canonical_units": canonical_units}
        initial_guess["states"] = [[*convert(self.states[i]), self.masses[i]] for i in range(len(self.states))]
        initial_guess["controls"] = self._control_table(save_control_angles)
        if filepath is not None:
            with open(filepath, mode='w') as stream:
                stream.write(json.dumps(initial_guess, cls=NumpyEncoder, indent=4))
        return initial_guess
'''))

ref("convergence numpy", ("_convergence.py", "check_convergence_keplerian", '''
    @njit
    def check_convergence_keplerian(oe, oeT, woe, tol_oe):
        doe = np.abs(oe[0:5] - oeT[0:5])
        doe[3:5] = np.arccos(np.cos(doe[3:5]))
        passed = 0
        for w, d, tol in zip(woe, doe, tol_oe):
            if w == 0.0 or d <= tol:
                passed += 1
        return passed == len(tol_oe)
'''), ("_convergence.py", "check_convergence_mee", '''
    @njit
    def check_convergence_mee(oe, oeT, woe, tol_oe):
        return bool(np.all((woe == 0.0) | (np.abs(oe[0:5] - oeT[0:5]) <= tol_oe)))
'''), ("_convergence.py", "elements_safety", '''
    @njit
    def elements_safety(oe, oe_min, oe_max):
        clean = np.empty(len(oe))
        for idx in range(len(oe)):
            value = oe[idx]
            if idx < 5:
                if value < oe_min[idx]:
                    value = oe_min[idx]
                if value > oe_max[idx]:
                    value = oe_max[idx]
            clean[idx] = value
        return clean
'''))

ref("elements energy", ("_elements.py", "get_semiMajorAxis", '''
    @njit
    def get_semiMajorAxis(state, mu):
        r, v = state[0:3], state[3:6]
        energy = 0.5*np.dot(v, v) - mu/la.norm(r)
        return -0.5*mu/energy
'''), ("_elements.py", "get_eccentricity", '''
    @njit
    def get_eccentricity(state, mu):
        r, v = state[0:3], state[3:6]
        radius = la.norm(r)
        return ((np.dot(v, v) - mu/radius)*r - np.dot(r, v)*v)/mu
'''), ("_elements.py", "get_inclination", '''
    @njit
    def get_inclination(state):
        h = np.cross(state[0:3], state[3:6])
        return np.arctan2(np.hypot(h[0], h[1]), h[2])
'''), ("_elements.py", "get_raan", '''
    @njit
    def get_raan(state):
        h = np.cross(state[0:3], state[3:6])
        return np.arctan2(h[0], -h[1])
'''))

ref("kep2sv vectors", ("_elements.py", "kep2sv", '''
    @njit
    def kep2sv(kep, mu):
        """Convert Keplerian elements to Cartesian states"""
        sma, ecc, inc, raan, aop, ta = kep[0], kep[1], kep[2], kep[3], kep[4], kep[5]
        cO, sO = np.cos(raan), np.sin(raan)
        cw, sw = np.cos(aop), np.sin(aop)
        ci, si = np.cos(inc), np.sin(inc)
        P = np.array([cO*cw - sO*sw*ci, sO*cw + cO*sw*ci, sw*si])
        Q = np.array([-cO*sw - sO*cw*ci, -sO*sw + cO*cw*ci, cw*si])
        p = sma*(1 - ecc*ecc)
        r = p/(1 + ecc*np.cos(ta))
        pos = r*(np.cos(ta)*P + np.sin(ta)*Q)
        vel = np.sqrt(mu/p)*((ecc + np.cos(ta))*Q - np.sin(ta)*P)
        return np.concatenate((pos, vel))
'''), ("_elements.py", "sv2kep", '''
    @njit
    def sv2kep(state, mu):
        kep = np.zeros(6)
        kep[0] = get_semiMajorAxis(state, mu)
        ecc = get_eccentricity(state, mu)
        kep[1] = np.sqrt(np.sum(ecc**2))
        kep[2], kep[3] = get_inclination(state), get_raan(state)
        kep[4], kep[5] = get_omega(state, mu), get_trueanom(state, mu)
        return kep
'''), ("_elements.py", "mee_with_a2sv", '''
    @njit
    def mee_with_a2sv(mee_with_a, mu):
        """Convert MEE with SMA to Cartesian states, without going through Keplerian elements"""
        a, f, g, h, k, l = mee_with_a
        p = a*(1 - f**2 - g**2)
        c, s = np.cos(l), np.sin(l)
        w = 1 + f*c + g*s
        r = p/w
        alpha2 = h**2 - k**2
        s2 = 1 + h**2 + k**2
        rt = np.sqrt(mu/p)
        return np.array([
            r/s2*(c + alpha2*c + 2*h*k*s),
            r/s2*(s - alpha2*s + 2*h*k*c),
            2*r/s2*(h*s - k*c),
            -rt/s2*(s + alpha2*s - 2*h*k*c + g - 2*f*h*k + alpha2*g),
            -rt/s2*(-c + alpha2*c + 2*h*k*s - f + 2*g*h*k + alpha2*f),
            2*rt/s2*(h*c + k*s + f*h + g*k),
        ])
'''))

ref("ta2ea forms", ("_elements.py", "ta2ea", '''
    @njit
    def ta2ea(ta,ecc):
        """Convert true anomaly to eccentric anomaly"""
        ratio = np.sqrt((1.0 - ecc)/(1.0 + ecc))
        half = 0.5*ta
        return 2.0*np.arctan(ratio*np.sin(half)/np.cos(half))
'''), ("_elements.py", "mee2ea", '''
    @njit
    def mee2ea(mee):
        f, g, l = mee[1], mee[2], mee[5]
        return ta2ea(l - np.arctan2(g, f), np.hypot(f, g))
'''), ("_transformations.py", "wrap", '''
    def wrap(alpha):
        """Wrap angle to be between -pi and pi"""
        return np.mod(np.add(alpha, np.pi), 2*np.pi) - np.pi
'''))

ref("lyapunov arrays", ("_lyapunov.py", "_u_to_thrust_angles", '''
    @njit
    def _u_to_thrust_angles(u_float):
        u = u_float/np.sqrt(np.sum(u_float*u_float))
        in_plane = np.sqrt(u[0]*u[0] + u[1]*u[1])
        return u, np.arctan2(-u[0], -u[1]), np.arctan2(-u[2], in_plane)
'''), ("_lyapunov.py", "lyapunov_control_angles", '''
    def lyapunov_control_angles(fun_lyapunov_control, mu, f, oe, oeT, rpmin, m_petro, n_petro, r_petro, b_petro, k_petro, wp, woe):
        """Compute thrust angles from Lyapunov feedback control law"""
        law = fun_lyapunov_control(mu, f, oe, oeT, rpmin, m_petro, n_petro, r_petro, b_petro, k_petro, wp, woe)
        direction, alpha, beta = _u_to_thrust_angles(np.asarray(law[0], dtype=np.float64))
        psi, q, gradient = law[1], law[2], law[3]
        element_rates = np.zeros(5)
        for column, component in zip(psi, f*direction):
            element_rates += np.array(column)*component
        return alpha, beta, direction, psi, q, np.dot(gradient, element_rates)
'''))

ref("perturb methods", ("_perturbations.py", "+SpicePerturbations", '''
    def _position_of(self, body, et):
        """position relative to the central body, in LU"""
        return spice.spkpos(body, et, self.frame_qlaw, "NONE", self.obs_id)[0]/self.LU

    def _cartesian(self, oe, elements_type):
        if elements_type == "keplerian":
            return kep2sv(oe, self.obs_mu)
        if elements_type == "mee_with_a":
            return mee_with_a2sv(oe, self.obs_mu)
        raise ValueError("Invalid elements type " + str(elements_type))

    def _accelerations(self, r, et):
        """every perturbing acceleration in the inertial frame"""
        if self.third_bodies_names is not None and self.third_bodies_gms is not None:
            for name, gm in zip(self.third_bodies_names, self.third_bodies_gms):
                yield perturbation_third_body_battin(r, self._position_of(name, et), gm)
        if self.use_J2:
            yield perturbation_J2(r, spice.pxform(self.frame_qlaw, self.frame_PA, et), self.obs_mu, self.J2, self.Re)
        if self.use_SRP:
            yield perturbation_SRP(r - self._position_of("10", et), spice.convrt(1.0, "AU", "km")/self.LU, self.k_srp)
'''), ("_perturbations.py", "SpicePerturbations.get_perturbations_RTN", '''
    def get_perturbations_RTN(self, t, oe, elements_type):
        """Compute perturbation in RTN frame"""
        rv = self._cartesian(oe, elements_type)
        total = sum(self._accelerations(rv[:3], self.et_ref + self.TU*t), np.zeros(3))
        return pxformECI2RTN(rv[:3], rv[3:]) @ total
'''), ("_perturbations.py", "perturbation_J2", '''
    @njit
    def perturbation_J2(rECI, T_ECI2PA, mu, J2, Re):
        x, y, z = T_ECI2PA @ rECI
        r2 = x**2 + y**2 + z**2
        r = np.sqrt(np.dot(rECI, rECI))
        s = 5*z**2/r**2
        coeff = 1.5*J2*mu*Re**2/r**5
        return T_ECI2PA.T @ np.array([coeff*x*(s - 1), coeff*y*(s - 1), coeff*z*(s - 3)])
'''), ("_perturbations.py", "pxformECI2RTN", '''
    @njit
    def pxformECI2RTN(rECI, vECI):
        radial = rECI/np.sqrt(np.sum(rECI**2))
        normal = np.cross(rECI, vECI)
        normal = normal/np.sqrt(np.sum(normal**2))
        transverse = np.cross(normal, radial)
        return np.vstack((radial, transverse, normal))
'''))

ref("spice init units", ("_perturbations.py", "SpicePerturbations.__init__", '''
    def __init__(
        self, et_ref, LU, TU, obs_id = "399", frame_qlaw = "J2000", frame_PA = "ITRF93",
        third_bodies_names = ["301", "10"], third_bodies_gms = None, J2 = 0.00108263, Re_km = 6378.0,
        P_SRP_SI = 4.56e-6, Cr_SRP = 1.2, Am_SI = 0.01, use_J2 = True, use_SRP = True,
    ):
        def gm(body):
            """GM of a body in canonical units"""
            _, values = spice.bodvrd(body, "GM", 1)
            return values[0]*TU**2/LU**3

        self.et_ref, self.LU, self.TU = et_ref, LU, TU
        self.obs_id, self.frame_qlaw, self.frame_PA = obs_id, frame_qlaw, frame_PA
        self.use_J2, self.use_SRP = use_J2, use_SRP
        self.J2 = J2
        self.Re = Re_km/LU
        pressure = P_SRP_SI*Cr_SRP*Am_SI
        self.k_srp = pressure*TU**2/(1e3*LU)
        self.obs_mu = gm(obs_id)
        self.third_bodies_names = third_bodies_names
        self.third_bodies_gms = third_bodies_gms
        if third_bodies_gms is None and third_bodies_names is not None:
            self.third_bodies_gms = list(map(gm, third_bodies_names))
'''))

ref("rkf45 stages", ("_integrate.py", "rkf45", '''
    @njit
    def rkf45(rhs, t, h, y, p, tol=1e-6):
        """Perform single-step Runge-Kutta 4th order with 5th order step correction"""
        nodes = np.array([0.0, 1/4, 3/8, 12/13, 1.0, 1/2])
        table = np.array([
            [0.0, 0.0, 0.0, 0.0, 0.0],
            [1/4, 0.0, 0.0, 0.0, 0.0],
            [3/32, 9/32, 0.0, 0.0, 0.0],
            [1932/2197, -7200/2197, 7296/2197, 0.0, 0.0],
            [439/216, -8.0, 3680/513, -845/4104, 0.0],
            [-8/27, 2.0, -3544/2565, 1859/4104, -11/40],
        ])
        low = np.array([25/216, 0.0, 1408/2565, 2197/4104, -1/5, 0.0])
        high = np.array([16/135, 0.0, 6656/12825, 28561/56430, -9/50, 2/55])
        k = np.zeros((6, len(y)))
        for i in range(6):
            stage = y.copy()
            for j in range(i):
                stage = stage + table[i, j]*k[j]
            k[i] = h*rhs(t + nodes[i]*h, stage, p)
        y_next = y + low @ k
        z_next = y + high @ k
        err = np.linalg.norm(z_next - y_next)
        if err > 0.0:
            return y_next, 0.84*h*(tol/err)**0.25
        return y_next, h
'''), ("_integrate.py", "rk4", '''
    @njit
    def rk4(rhs, t, h, y, p):
        weights = (1.0, 2.0, 2.0, 1.0)
        offsets = (0.0, 0.5, 0.5, 1.0)
        k = np.zeros_like(y)
        total = np.zeros_like(y)
        for i in range(4):
            k = rhs(t + offsets[i]*h, y + offsets[i]*h*k, p)
            total = total + weights[i]*k
        return y + h/6.0*total
'''))

ref("init per type", ("_qlaw.py", "+QLaw", '''
    def _setup_keplerian(self):
        self.element_names = ["a", "e", "i", "raan", "omega", "ta"]
        self.eom, self.check_convergence = eom_kep_gauss, check_convergence_keplerian
        self.lyap_fun, _, _, self.dqdt_fun = symbolic_qlaw_keplerian()
        return [0.05,1e-4,1e-4,1e-4,1e-4,1e-8], [1e2,0.95,np.pi] + [np.inf]*3

    def _setup_mee_with_a(self):
        self.element_names = list("afghkL")
        self.eom, self.check_convergence = eom_mee_with_a_gauss, check_convergence_mee
        self.lyap_fun, _, _, self.dqdt_fun = symbolic_qlaw_mee_with_a()
        return [0.05] + [-np.inf]*4, [1e2, 10.0, 10.0] + 3*[np.inf]
'''), ("_qlaw.py", "QLaw.__init__", '''
    def __init__(
        self, mu=1.0, rpmin=0.1, k_petro=1.0, m_petro=3.0, n_petro=4.0, r_petro=2.0, b_petro=0.01, wp=1.0,
        elements_type="mee_with_a", integrator="rk4", verbosity=1, anomaly_grid_size=5,
        tol_oe=None, oe_min=None, oe_max=None, nan_angles_threshold=10, print_frequency=200,
        use_sundman=False, perturbations=None, relaxed_tol_factor = 10, exit_at_relaxed = 100,
    ):
        assert relaxed_tol_factor >= 1, "relaxed_tol_factor must be >= 1"
        self.mu, self.elements_type, self.integrator = mu, elements_type, integrator
        given = locals()
        for name in ("rpmin", "k_petro", "m_petro", "n_petro", "r_petro", "b_petro", "wp", "anomaly_grid_size", "verbosity",
                     "nan_angles_threshold", "print_frequency", "use_sundman", "perturbations", "exit_at_relaxed"):
            setattr(self, name, given[name])
        if tol_oe is None:
            tol_oe = [1e-3]*5
        assert len(tol_oe)==5, "tol_oe must have 5 components"
        self.tol_oe = np.asarray(list(tol_oe))
        self.tol_oe_relaxed = np.multiply(relaxed_tol_factor, self.tol_oe)
        setup = self._setup_keplerian if elements_type == "keplerian" else self._setup_mee_with_a
        lower, upper = setup()
        self.oe_min = np.array(lower) if oe_min is None else np.array(oe_min)
        self.oe_max = np.array(upper) if oe_max is None else np.array(oe_max)
        self.step_min = 1e-4
        self.step_max = 2.0
        self.ode_tol = 1.e-5
        self.ready, self.converge, self.exitcode = False, False, 0
        self.plot_elements_history = plot_elements_history.__get__(self)
        self.plot_battery_history = plot_battery_history.__get__(self)
        self.plot_controls = plot_controls.__get__(self)
        self.plot_trajectory_2d = plot_trajectory_2d.__get__(self)
        self.plot_trajectory_3d = plot_trajectory_3d.__get__(self)
        self.plot_efficiency = plot_efficiency.__get__(self)
        self.plot_Q = plot_Q.__get__(self)
'''))

ref("plots loops", ("_plot_methods.py", "plot_controls", '''
    def plot_controls(self, figsize=(9,5), TU=1.0, time_unit_name="TU", show_anomaly=True):
        """Plot control time history"""
        rad2deg = 180/np.pi
        t = TU*np.array(self.times)
        fig, ax = plt.subplots(figsize=figsize)
        if show_anomaly:
            ax.plot(t, wrap(np.array([s[-1] for s in self.states]))*rad2deg, color='grey', label="Anomaly", lw=0.35)
        style = dict(where='pre', marker='o', markersize=2)
        for j, (label, factor) in enumerate([("alpha", rad2deg), ("beta", rad2deg), ("throttle, %", 100)]):
            ax.step(t[:-1], np.array([c[j] for c in self.controls])*factor, label=label, **style)
        ax.set_xlabel(f"Time, {time_unit_name}")
        ax.set_ylabel("Control angles and throttle")
        ax.legend()
        return fig, ax
'''), ("_plot_methods.py", "plot_battery_history", '''
    def plot_battery_history(self, figsize=(9,5), TU=1.0, BU=1.0, time_unit_name="TU", battery_unit_name="BU"):
        """Plot battery history"""
        fig, ax = plt.subplots(1,1,figsize=figsize)
        ax.plot([TU*t for t in self.times], [BU*b for b in self.battery], color='k')
        for level, color, name in zip(self.battery_capacity, "rg", ("min", "max")):
            ax.axhline(BU*level, color=color, linestyle='--', label=f"{name} capacity")
        ax.set(xlabel=f"Time, {time_unit_name}", ylabel=f"Battery, {battery_unit_name}")
        return fig, ax
'''), ("_plot_methods.py", "plot_efficiency", '''
    def plot_efficiency(self, figsize=(9,6), TU=1.0, time_unit_name="TU"):
        """Plot efficiency"""
        fig, (top, bottom) = plt.subplots(2,1,figsize=figsize)
        t = np.array(self.times)[:-1]*TU
        etas, bounds = np.transpose(self.etas), np.transpose(self.etas_bounds)
        top.plot(t, etas[0], label="eta_a")
        top.plot(t, bounds[0], label="eta_a_min", linestyle='-', color='red')
        bottom.plot(t, etas[1], label="eta_r")
        bottom.plot(t, bounds[1], label="eta_r_min", linestyle='-', color='red')
        for ax, word in ((top, "Absolute"), (bottom, "Relative")):
            ax.set(xlabel=f"Time, {time_unit_name}", ylabel=word + " efficiency")
            ax.legend()
        plt.tight_layout()
        return fig, bottom
'''))
