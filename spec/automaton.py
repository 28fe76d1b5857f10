"""Reference automaton of engine availability (duty cycle and battery) and of the run counters.
Advanced next to the analysed loop: begin() at the start of a step, end() after it was recorded.
The two flags are kept plain or negated (flip_duty, flip_charge), so that a loop that stores either form is matched."""
import numpy as np


class Automaton:
    def __init__(self, flip_duty, flip_charge):
        self.flip_duty = flip_duty
        self.flip_charge = flip_charge
        self.duty_flag = not flip_duty
        self.charge_flag = flip_charge
        self.t_on = 0.0
        self.t_off = 0.0
        self.n_relaxed = 0
        self.n_nan = 0
        self.step = 0.0
        self.before = 1.0
        self.low = False
        self.enabled = True

    def begin(self, q, s, requested):
        """engine availability and length of the step that starts at the last record"""
        t = q.times[-1]
        b = q.battery[-1]
        lo = s.battery_capacity[0]
        hi = s.battery_capacity[1]
        enabled = not self.duty_flag if self.flip_duty else self.duty_flag
        charging = not self.charge_flag if self.flip_charge else self.charge_flag
        self.before = b
        self.step = requested
        self.low = b <= lo + 1e-12
        # duty cycle
        if enabled and abs(t - self.t_on) > s.duty_cycle[0]:
            enabled = False
            self.t_off = t
        if not enabled and abs(t - self.t_off) > s.duty_cycle[1]:
            enabled = True
            self.t_on = t
        # battery at its lower limit; otherwise an engine-on step ends there at the latest
        if self.low:
            enabled = False
            self.t_off = t
            charging = True
        elif enabled and not (charging and s.require_full_recharge) \
                and b - s.battery_charge_discharge_rate[1] * requested < lo:
            self.step = (b - lo) / s.battery_charge_discharge_rate[1]
        # full recharge
        if s.require_full_recharge and charging and b < hi:
            enabled = False
        self.enabled = enabled
        self.duty_flag = not enabled if self.flip_duty else enabled
        self.charge_flag = not charging if self.flip_charge else charging

    def end(self, q, s):
        """after the step was recorded"""
        if not self.enabled:
            if q.battery[-1] == s.battery_capacity[1]:
                self.charge_flag = self.flip_charge


class Settings:
    """the settings of engine availability, as the user gave them"""


class Perturbation:
    """stand-in for a perturbation model"""

    def get_perturbations_RTN(self, t, oe, elements_type):
        return np.zeros(3)
