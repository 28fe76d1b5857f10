"""Generates /verif/properties.jsonl (kept next to it so that ids/anchors stay in step)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
EL="pyqlaw/_elements.py"; QL="pyqlaw/_qlaw.py"; SY="pyqlaw/_symbolic.py"; EO="pyqlaw/_eom.py"; IN="pyqlaw/_integrate.py"; LY="pyqlaw/_lyapunov.py"; PE="pyqlaw/_perturbations.py"; CO="pyqlaw/_convergence.py"; TR="pyqlaw/_transformations.py"; PM="pyqlaw/_plot_methods.py"; PH="pyqlaw/_plot_helper.py"; INIT="pyqlaw/__init__.py"

p("C01","Element-set conversions describe the same orbit",
 "Converting an elliptic orbit between Keplerian, modified equinoctial, and semimajor-axis equinoctial elements follows the textbook definitions, so every conversion path between two sets gives the same orbit and phase, and there-and-back conversions return the same semimajor axis, eccentricity, inclination, orbit plane, apse line and anomaly (angles modulo a full turn). This includes equatorial orbits, for which the ascending node is undefined, and eccentric and true anomaly being two names of the same position on the ellipse. A conversion depends on its arguments alone, whatever was converted before, and leaves them as they are.",
 ["inputs"],"every elliptic element vector with inclination below 180 degrees, equatorial ones included, and every chain of conversions",
 "The tests convert a couple of fixed inclined orbits; the guarantee is about all element values, including equatorial and any quadrant.",
 [EL],[("Keplerian to MEE and MEE-with-SMA",EL+": kep2mee, kep2mee_with_a"),("MEE to Keplerian",EL+": mee2kep, mee_with_a2kep"),("MEE and MEE-with-SMA",EL+": mee_with_a2mee, mee2mee_with_a"),("anomaly conversion",EL+": ta2ea, mee2ea")])
p("C02","Cartesian conversions match two-body mechanics",
 "The Cartesian state built from orbital elements is the two-body state with exactly those elements (position on the conic at the given anomaly, rotated by argument of periapsis, inclination and node; velocity the matching orbital velocity), and the elements, period and eccentricity vector read off a Cartesian state are those of that state. An orbit outline consists of states of one and the same orbit over a full revolution. A conversion depends on its arguments alone, whatever was converted before, and leaves them as they are.",
 ["inputs"],"every elliptic element vector and every bound Cartesian state, every quadrant of every angle",
 "Tests check one or two sample states; sign and quadrant errors show only on part of the input space.",
 [EL,TR],[("elements to Cartesian",EL+": kep2sv, mee_with_a2sv"),("Cartesian to elements",EL+": sv2kep, get_*"),("orbit outline",EL+": get_orbit_coordinates"),("elementary rotations",TR+": rotmat1, rotmat2, rotmat3")])
p("C03","Angle extraction never leaves the domain of its inverse function",
 "Every inverse sine or cosine the library evaluates receives an argument between minus one and one for all valid orbits, also when rounding pushes a normalised dot product slightly beyond one. No conversion or convergence test returns an undefined number because of it.",
 ["inputs"],"all floating-point inputs describing valid orbits, including exactly polar, equatorial and node-aligned ones where rounding exceeds the mathematical range",
 "The failure needs particular rounding; sampled tests do not hit it.",
 [EL,CO],[("clamped inverse cosines",EL+": get_inclination, get_omega"),("angle difference",CO+": check_convergence_keplerian")])
p("C04","Dynamics are Gauss's variational equations",
 "The rate of change of every element set under an acceleration given in radial-transverse-normal components is exactly Gauss's variational equations plus the Keplerian motion of the fast angle, for thrust and perturbing acceleration alike. The five slow-element sensitivities that the control law hands to the dynamics are those of the same equations, so that law and propagation agree.",
 ["inputs"],"every elliptic state, every thrust and perturbing acceleration vector, both element sets",
 "Tests propagate one transfer and compare a loose end state; a wrong term that is small on that transfer passes.",
 [EO,SY],[("Keplerian rates",EO+": eom_kep_gauss"),("MEE rates",EO+": eom_mee_gauss, eom_mee_with_a_gauss"),("sensitivity columns",SY+": symbolic_qlaw_keplerian, symbolic_qlaw_mee_with_a")])
p("C06","The quotient Q is the documented Lyapunov function",
 "For both element sets the control law evaluates the documented function: (1 + Wp P) times the weighted, scaled sum over the five slow elements of (distance to target / maximal rate) squared, with the documented periapsis penalty, semimajor-axis scaling and maximal rates. Angular distances in the Keplerian set are wrapped, so that Q is invariant under full turns of the node and of the argument of periapsis.",
 ["inputs","configurations"],"every elliptic state, every target, every choice of law parameters and weights, both element sets",
 "Tests only observe whether one transfer converges; wrong coefficients still converge.",
 [SY],[("Keplerian Q",SY+": symbolic_qlaw_keplerian"),("MEE-SMA Q",SY+": symbolic_qlaw_mee_with_a")])
p("C07","Thrust points along the steepest descent of Q",
 "The thrust direction computed by the feedback law is the negative of the gradient of Q with respect to the slow elements projected through the element-rate sensitivities, normalised, so that no other direction decreases Q faster; the in-plane and out-of-plane angles reproduce that direction exactly. The reported rate of Q is the magnitude of its decrease under full thrust in that direction, and every generated evaluator of the law agrees with the others.",
 ["inputs","configurations"],"every state, target, weights and law parameters for which the gradient is not zero; every quadrant of the thrust direction",
 "Needs all directions and all states; the tests check two sample directions.",
 [LY,SY],[("direction and angles",LY+": _u_to_thrust_angles, lyapunov_control_angles"),("gradient and projection",SY+": symbolic_qlaw_keplerian, symbolic_qlaw_mee_with_a")])
p("C08","Every problem parameter reaches its own role in the control law",
 "The gravitational parameter, periapsis limit, penalty and scaling factors, weights and target that the user sets are the ones the control law is evaluated with, each in its own role, at every step and in the effectivity evaluation, together with the current state and thrust acceleration of that step. The default tolerances, weights and bounds are used exactly when the user gives none.",
 ["configurations","histories"],"every assignment of pairwise different parameter values, both element sets, every step of a run, thrusting or coasting",
 "Tests use the defaults, several of which coincide (or have no influence), so exchanged parameters go unnoticed.",
 [QL,LY,SY],[("law call per step",QL+": QLaw.solve"),("effectivity evaluation",QL+": QLaw.evaluate_osculating_qdot"),("argument order",SY+": lambdify argument lists; "+LY+": lyapunov_control_angles")])
p("C09","Integrators are consistent Runge-Kutta schemes of their stated order",
 "For every differential equation the fixed-step integrator satisfies the order conditions of a fourth-order Runge-Kutta scheme, and the embedded integrator satisfies those of its fourth-order solution and fifth-order companion, with stage times consistent with stage states. The proposed next step is the standard safety-scaled fourth-root of tolerance over the difference of both solutions (wherever they differ; otherwise the step is kept or grows), and neither integrator modifies its arguments.",
 ["inputs"],"every right-hand side, start time, step of either sign, state and parameter set",
 "Order conditions are about all right-hand sides; a sampled orbit hides an error in one coefficient below the loose tolerance.",
 [IN],[("rk4",IN+": rk4"),("rkf45",IN+": rkf45")])
p("C11","With the Sundman option every step spans the requested eccentric anomaly",
 "When the anomaly-based step option is on, the time step taken equals the two-body time of flight over the requested increment of eccentric anomaly from the current state, with the sign of the increment, and no step depends on where in the orbit the anomaly wraps. Without the option the requested time step is used.",
 ["inputs","configurations","histories"],"every elliptic state, anomaly increments of both signs, both element sets and integrators",
 "One forward run on one orbit; the wrap-around and the backward sign are not reached.",
 [QL,EL],[("step selection",QL+": QLaw.solve"),("eccentric anomaly",EL+": ta2ea, mee2ea")])
p("C12","Convergence is declared exactly when every weighted element is within tolerance",
 "The transfer is declared converged if and only if each of the five slow elements with non-zero weight differs from its target by at most its tolerance, where node and argument of periapsis of Keplerian elements are compared modulo a full turn. Elements with zero weight never prevent convergence.",
 ["inputs","configurations"],"every element vector, target, weight vector and tolerance vector, including exact equality and differences of many turns",
 "Boundary values, zero weights and full turns need not appear in a sample transfer.",
 [CO],[("Keplerian test",CO+": check_convergence_keplerian"),("MEE test",CO+": check_convergence_mee")])
p("C13","Exit code and convergence flag tell the truth about the run",
 "After a run, success (code 1, or 2 for the relaxed tolerance) is reported exactly when the last recorded state meets the tolerance, or states met the relaxed tolerance the requested number of times; otherwise the code names the true reason: mass at its limit, undefined thrust angles beyond the accepted number, or time used up. A run takes at least one step and continues as long as none of these conditions holds; nothing of a previous run influences the outcome.",
 ["histories","configurations"],"every run and every order in which stopping conditions arise, repeated runs of one problem object",
 "Tests see codes of a few fixed transfers; coincidences of conditions and repeated runs are not covered.",
 [QL],[("stopping logic",QL+": QLaw.solve")],[("exitcode, converge","reported outcome",QL+": QLaw.solve")])
p("C14","Recorded histories are aligned and form one trajectory",
 "Times, states, masses and battery levels start with the initial condition and have one entry more than controls, effectivities, Q and its rate; entry k+1 is the integrator's result from entry k over exactly the recorded time difference, from the recorded time, with the dynamics, control and perturbation of step k, brought within the configured element bounds where these apply. Time moves in the direction of the requested step.",
 ["histories","configurations"],"every run length, stopping reason, integrator, step option, element set, perturbation and coasting pattern",
 "Alignment must hold on every path through a step, including early exits; tests look at final values only.",
 [QL],[("recording",QL+": QLaw.solve")],[("times, states, masses, controls, etas, Qs, dQdts, battery","recorded histories",QL+": QLaw.solve")])
p("C15","Propellant is consumed exactly while the engine is on",
 "Between consecutive records the mass changes by the mass-flow rate times the elapsed time when the recorded throttle is one, and not at all when it is zero. The thrust acceleration of a step is the maximal thrust over the mass at the start of that step, directed by the sign of the step.",
 ["histories","configurations"],"every step of every run, forward and backward, any coasting, duty-cycle and battery pattern",
 "Tests compare no mass budget; a coast step that still burns passes.",
 [QL],[("mass update",QL+": QLaw.solve")],[("mass","current mass",QL+": QLaw.solve")])
p("C16","Battery level obeys its limits and accounts for engine use",
 "In every record the battery lies within its capacity limits; over a step it falls by discharge rate times step when the engine was enabled, rises by charge rate times step when disabled, clipped to the limits, and an engine-on step is shortened to end at the lower limit rather than overrun it. At the lower limit the engine is disabled, and if full recharge is required it stays disabled until the upper limit is reached.",
 ["histories","configurations"],"every run, all rates and limits, with and without full recharge, every step size, forward in time",
 "Depletion, partial and full recharge must be met in every order; the tests contain one battery case.",
 [QL],[("battery bookkeeping",QL+": QLaw.solve")],[("battery level, charging flag","battery automaton",QL+": QLaw.solve")])
p("C17","Duty cycle alternates on and off phases of the requested length",
 "With a duty cycle given, the engine is enabled from the start, disabled at the first step boundary after it has been enabled for longer than the on-time, and enabled again at the first boundary after it has been off for longer than the off-time, forward and backward in time. While disabled the recorded throttle is zero.",
 ["histories","configurations"],"every run, all on- and off-times including zero, every step size of either sign",
 "The periodic pattern has to hold over unbounded histories and both time directions; a test samples one.",
 [QL],[("duty automaton",QL+": QLaw.solve")],[("duty flag, last switch times","duty automaton",QL+": QLaw.solve")])
p("C18","Coasting happens exactly below the effectivity thresholds",
 "While enabled, the engine coasts exactly if a threshold is positive and the absolute or the relative effectivity of the step lies below its threshold; effectivities are the current rate of Q relative to the extremes over one revolution. Constant and callable thresholds act alike, with callables evaluated at the time, state, mass and battery of the step, and recorded thresholds and effectivities are the ones used.",
 ["histories","configurations"],"every step, constant or callable thresholds, any grid size, forward and backward",
 "Tests use constant thresholds on one transfer; boundary and callable cases are open.",
 [QL],[("effectivity decision",QL+": QLaw.solve"),("extremes over the orbit",QL+": QLaw.evaluate_osculating_qdot")])
p("C19","The recorded control is the control that was applied",
 "At every step with throttle one the acceleration applied to the dynamics is the current thrust acceleration along the direction of the recorded angles, and with throttle zero the applied thrust is exactly zero. Recorded Q and rate are those of the law at the state from which the step starts.",
 ["histories","configurations"],"every step of every run on every path through the step (enabled, disabled, coasting, undefined angles)",
 "Each path must agree; tests never compare applied and recorded control.",
 [QL],[("control application and recording",QL+": QLaw.solve")])
p("C20","Perturbing accelerations follow their physical formulas",
 "Third-body, oblateness and radiation-pressure accelerations equal the closed-form physical expressions: the difference of attractions on spacecraft and primary, the gradient of the J2 potential in the body's principal axes, and inverse-square push away from the Sun. The radial-transverse-normal frame is the right-handed orthonormal frame of the given position and velocity.",
 ["inputs"],"every position, velocity, body position and physical constant for which the expressions are defined",
 "Tests compare one sample vector or only check that a run finishes.",
 [PE],[("third body",PE+": perturbation_third_body_battin"),("J2",PE+": perturbation_J2"),("SRP",PE+": perturbation_SRP"),("RTN frame",PE+": pxformECI2RTN")])
p("C21","Perturbations are assembled in the right frame, units and epoch",
 "The perturbing acceleration of a step is the sum of exactly the enabled effects, evaluated at the spacecraft's current position at reference epoch plus elapsed time, with ephemerides, constants and radii converted to the problem's length and time units, expressed in the radial-transverse-normal frame of the current state. Bodies and constants given by the user are the ones used, and omitted ones are looked up.",
 ["inputs","configurations","histories"],"every time, state, unit system, body list and combination of enabled effects, both element sets",
 "Tests run one Earth configuration; unit and frame mistakes scale away or stay below tolerance.",
 [PE,QL],[("assembly",PE+": SpicePerturbations.__init__, get_perturbations_RTN"),("use per step",QL+": QLaw.solve")])
p("C22","Runs alter neither inputs nor recorded history, and reruns are independent",
 "Solving never modifies the arrays and lists the user passed in, and a recorded entry is never changed afterwards by later steps. Solving again with the same settings starts from the same state as the first time, irrespective of what was solved or inspected before.",
 ["histories","configurations"],"every run length, every element set, integrator and option, any sequence of problem definitions and runs on one object",
 "Aliasing shows only in specific element sets or sequences of runs.",
 [QL,CO,IN],[("propagation and recording",QL+": QLaw.solve, QLaw.set_problem"),("state clean-up",CO+": elements_safety")])
p("C23","Invalid configurations are refused before any propagation",
 "An unknown element set or integrator, a non-positive gravitational parameter, a relaxation factor below one, a wrong number of initial elements, tolerances or weights, a minimum mass that is too small, an effectivity threshold of an unsupported type, or solving before a problem has been successfully defined is refused with an error, whether given at construction or assigned later. A refused assignment leaves the setting as it was. Every valid configuration is accepted.",
 ["configurations","inputs"],"all argument values, at construction and by later assignment",
 "The set of invalid values is unbounded and tests contain a few constructions only.",
 [QL],[("validation",QL+": QLaw.__init__, property setters, set_problem, solve")])
p("C24","Exported results contain the run, in the documented representation",
 "The exported dictionary holds the recorded times and, for every recorded state, its modified equinoctial elements followed by mass, and the recorded control as radial-transverse-normal unit vector with throttle or as angles with throttle, padded by a final entry of zero throttle so that all arrays have equal length, together with the unit scales and the first and last time. What is written to a file is the same data, and exporting changes nothing in the problem.",
 ["histories","configurations"],"every run and both element sets and control representations, with or without file",
 "Tests check that a file appears; the content per element set is not compared.",
 [QL],[("export",QL+": QLaw.save_to_dict")])
p("C25","Cartesian and interpolated histories are the recorded states",
 "The Cartesian history has one column per recorded time that is the conversion of the recorded state of that time with the problem's gravitational parameter and element set; the interpolated variant converts the interpolant of the recorded elements at evenly spaced times from the first to the last recorded time. Interpolants pass each element's recorded values against the recorded times in the documented order.",
 ["histories","configurations"],"every run length, element set and interpolation option",
 "Exchanged elements or a missing last column do not make the existing plotting tests fail.",
 [QL],[("history conversion",QL+": QLaw.get_cartesian_history, interpolate_states")])
p("C26","Inspecting, printing, plotting and exporting are read-only",
 "No reporting, plotting, interpolation, export or effectivity evaluation changes the problem definition, recorded histories or outcome. They can be used in any order and any number of times between runs, and nothing they leave behind changes later runs or later reports.",
 ["histories","configurations"],"every sequence of reporting calls and every recorded history",
 "Requires all call sequences; tests call each once after the assertions.",
 [QL,PM,PH],[("reports",QL+": pretty*, get_cartesian_history, interpolate_states, save_to_dict, evaluate_osculating_qdot"),("plots",PM+": plot_*")])
p("C27","State clean-up and angle wrapping stay within their documented ranges",
 "The clean-up of an element vector returns each of the five slow elements clamped to its bounds, the fast angle unchanged, and leaves already admissible vectors unchanged. Angle wrapping returns an equivalent angle (modulo a full turn) in the half-open interval from minus pi to pi.",
 ["inputs"],"every element vector and bound vector with lower below upper bounds; every angle",
 "All values and all multiples of a turn; tests have none for either.",
 [CO,TR],[("clamping",CO+": elements_safety"),("wrapping",TR+": wrap")])
p("C29","No configuration makes a run use an undefined value",
 "For every accepted configuration, no run stops because a variable, attribute or history entry is used before it has been defined, and no helper is called with an argument list it does not accept, on any path through a step, including a first step with the engine disabled. The same holds for reporting on a run that has recorded at least one step.",
 ["configurations","histories"],"every accepted combination of element set, integrator, step option, verbosity, thresholds, perturbations, duty cycle and battery settings, every path",
 "The number of combinations and step paths exceeds any test list; failures need particular combinations.",
 [QL,PM,PE],[("step paths",QL+": QLaw.solve"),("reports",QL+", "+PM)])
p("C30","Published names exist and plots draw the recorded histories",
 "Every name the package offers for import is defined by the module it is taken from, and every method the problem object announces exists. Each history plot draws the recorded quantity (times the given unit factors) against the recorded times, labelled accordingly and with the target tolerance bands and battery limits where asked for; the trajectory plots draw the Cartesian history and the initial and target orbits.",
 ["histories","configurations"],"every recorded history, both element sets, all plotting options",
 "Plot tests only check that no exception occurs; wrong data are drawn silently.",
 [INIT,PM,PH,QL],[("exports",INIT),("plots",PM+": plot_*"),("bound methods",QL+": QLaw.__init__")])
p("C31","Valid orbits and settings never cause a division by zero",
 "No element conversion, frame change, equation of motion, perturbation, integrator step or thrust-angle computation divides a number by zero (compiled code stops with an exception there), for any elliptic orbit including circular, equatorial, polar and retrograde ones and positions on the apses, any non-zero thrust direction including purely in-plane and purely out-of-plane ones, and any differential equation including constant ones (except the Keplerian rates at exactly zero eccentricity, where that element set itself is singular). The propagation loop divides by no setting that may be zero, such as battery rates.",
 ["inputs","configurations"],"every valid orbit (including the singular cases of each element set), thrust direction, right-hand side and battery rate",
 "The failing inputs are isolated points (exactly circular, exactly normal thrust, both embedded solutions equal) that sampled tests do not hit.",
 [EL,EO,IN,LY,PE,TR,QL],[("conversions",EL),("dynamics",EO+", "+PE),("integrators",IN),("thrust angles",LY+": _u_to_thrust_angles"),("battery-limited step",QL+": QLaw.solve")])
p("C32","Console reports show the run's own values, and reporting changes nothing",
 "The printed summaries (pretty, pretty_results, pretty_settings), progress lines and point counts show the problem's and the run's own values next to the right labels: initial and target elements with their weights, exit code and convergence flag, final elements with the absolute differences to the target, final time and mass, tolerances, and in each progress line the recorded time, the five differences to the target and the fast angle. Each closing message is printed exactly when the run ended so, nothing is printed while solving at verbosity 0, and neither verbosity nor print frequency influences any recorded value, the way a run ends or its outcome.",
 ["inputs","configurations","histories"],"every run, element set, verbosity and print frequency",
 "Tests look at returned data, not at what is printed, and run at one verbosity; a wrong report or a report that alters the run shows only for particular outcomes and settings.",
 [QL],[("summaries",QL+": QLaw.pretty, pretty_results, pretty_settings, get_cartesian_history"),("progress and closing messages",QL+": QLaw.solve")])
p("N01","Transfers converge to their target",
 "For every reachable target and sensible weights the propagated transfer arrives within tolerance in the allotted time, with Q decreasing along the trajectory.",
 ["inputs","configurations","histories"],"all reachable targets and settings",
 "Convergence depends on a nonlinear trajectory over thousands of steps.",
 [QL,SY],[("closed loop",QL+": QLaw.solve")])
p("N02","Propagation is numerically accurate",
 "The propagated states differ from the exact solution of the equations of motion by no more than a tolerance set through the step size, and rounding errors stay negligible over a whole transfer.",
 ["inputs","histories"],"all orbits, step sizes and run lengths",
 "Error accumulation is a runtime quantity that samples cannot bound.",
 [IN,QL],[("propagation",IN+", "+QL)])
p("N03","Runs finish in acceptable time",
 "Constructing a problem and solving a transfer take time proportional to the number of steps, with a constant small enough for preliminary design sweeps, and figures are legible.",
 ["configurations"],"all configurations",
 "Tests do not measure time.",
 [QL,SY],[("symbolic generation",SY),("loop",QL)])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
