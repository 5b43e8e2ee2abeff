"""Writes properties.jsonl (the property list is kept here so that it can be diffed and edited)."""
import json, pathlib
P = []
K = "src/exoplanet/orbits/keplerian.py"
T = "src/exoplanet/orbits/ttv.py"
S = "src/exoplanet/orbits/simple.py"
L = "src/exoplanet/light_curves/limb_dark.py"
D = "src/exoplanet/distributions/distributions.py"
EC = "src/exoplanet/distributions/eccentricity.py"
ES = "src/exoplanet/estimators.py"


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


p("K01", "Orbits follow the two-body Kepler solution at every time",
  "For every bound orbit (eccentricity 0 <= e < 1, any orientation, any reference epoch) and every time, before or after the epoch and any number of periods away, the planet's position relative to the star is the Kepler solution for the orbit's period, semi-major axis, eccentricity and angles. The motion repeats with the period, an orbit given no eccentricity moves exactly like one with e=0, and get_true_anomaly returns the true anomaly that solves Kepler's equation for any mean anomaly.",
  ["inputs", "configurations"],
  "all e in [0,1), all angles, all times (positive, negative, many periods from the epoch), with/without ecc, Omega, omega given as angle or as sin/cos",
  "Tests compare a few hundred orbits to batman only in transit, for Omega=None, and use one eccentric orbit elsewhere; the far side of the orbit, the node rotation, e>0.9, times many periods away and the sin/cos form are not sampled.",
  [K], [("_get_true_anomaly / get_true_anomaly (ops.kepler)", K), ("_rotate_vector", K), ("_get_position", K)],
  ["KeplerianOrbit.get_relative_position", "KeplerianOrbit.get_planet_position", "KeplerianOrbit.get_star_position", "get_true_anomaly"],
  [("M0, tref, n", "mean anomaly at the reference transit, epoch offset, mean motion", K)])
p("K02", "Velocity and acceleration are derivatives of position and obey gravity",
  "For every orbit and time, the velocities returned for the planet, the star and the relative orbit are the time derivatives of the corresponding positions, and the accelerations are the time derivatives of those velocities. The relative acceleration equals the inverse-square attraction of the total mass, so orbital energy and angular momentum are conserved along every orbit.",
  ["inputs", "configurations"],
  "all orbits (with or without eccentricity and node angle, any planet mass up to equal masses) and all times",
  "test_velocity and test_acceleration use one orbit each (e=0.1, and no Omega for the acceleration); circular orbits, high eccentricity, heavy planets and several planets are never differentiated.",
  [K], [("_get_velocity", K), ("_get_acceleration", K), ("K0", K)],
  ["get_planet_velocity", "get_star_velocity", "get_relative_velocity", "get_planet_acceleration", "get_star_acceleration", "get_relative_acceleration"],
  [("K0", "velocity amplitude per unit of the other body's mass", K)])
p("K03", "Star and planet balance about the barycenter",
  "For every planet of every system and at every time, m_star times the star's position plus m_planet times the planet's position is zero, and the planet-minus-star difference equals the relative position; the same two identities hold for velocities and accelerations. A massless planet leaves the star at rest at the origin.",
  ["inputs", "configurations"],
  "all mass ratios from 0 to >1, all orbits, all times, any number of planets, masses in any units",
  "test_center_of_mass checks positions of one two-planet system; velocities, accelerations, zero masses and mass ratios above one are not covered.",
  [K], [("a_star, a_planet, m_total", K), ("_get_velocity", K), ("_get_acceleration", K)],
  ["get_star_position", "get_planet_position", "get_relative_position", "velocity and acceleration counterparts"])
p("K04", "Every legal parameter combination describes one consistent system",
  "Every allowed combination of period, semi-major axis, stellar mass, radius, density and planet mass yields a system whose attributes satisfy Kepler's third law and density = mass/volume, keep the given values unchanged, use the documented solar defaults, and can be re-specified through any other allowed combination without changing. Every combination documented as under- or over-determined raises ValueError instead of producing an orbit.",
  ["configurations", "inputs", "histories"],
  "all subsets of {period, a, m_star, r_star, rho_star} x planet mass, and all chains of re-parametrization between legal subsets",
  "test_get_consistent_inputs walks one chain of four subsets at one point and checks three of the rejected subsets.",
  [K], [("_get_consistent_inputs", K)],
  ["orbit.period, .a, .m_star, .r_star, .rho_star, .m_planet, .m_total", "ValueError from the constructor"])
p("K05", "Reference epochs and viewing geometry mean what they say",
  "At t0 (and every whole number of periods away) the planet is in front of the star at sky-projected distance |b|*r_star with b and incl related by the same geometry whichever was given; at t_periastron it is at its closest approach a(1-e), and giving the orbit's own t0 or t_periastron, incl or b, omega or sin/cos of omega reproduces the same orbit. With no inclination given the orbit is edge-on and with no epoch t0=0; giving both epochs, both incl and b, or an eccentricity without omega raises ValueError.",
  ["configurations", "inputs"],
  "all (e, omega, incl or b, t0 or t_periastron, omega or sin/cos) combinations and values",
  "test_impact checks one orbit; t_periastron and sin/cos omega inputs are used in no position test, and none of the rejected combinations of epochs and inclinations is tested.",
  [K], [("M0 and E0", K), ("dcosidb", K), ("t_periastron/t0", K)],
  ["orbit.t0, .t_periastron, .b, .incl", "get_relative_position at those times", "jacobians['b']['cos_incl']"])
p("K06", "Duration parameters give orbits that transit for that long",
  "An orbit without eccentricity built from a transit duration, impact parameter and radius ratio is at a sky-projected distance (1+ror)*r_star exactly half a duration before and after each transit; an eccentric orbit built from a duration does so up to the standard long-period approximation, and keeps the given duration attribute. The reported Jacobians with respect to the duration are the derivatives of a, a_planet, a_star and rho_star, and a missing impact parameter raises ValueError while a missing radius ratio warns and counts as zero.",
  ["inputs", "configurations"],
  "all durations, impact parameters, radius ratios, stellar radii, eccentricities, planet masses, in any time unit",
  "One duration/period/b/ror point is tested, for a circular orbit only and with a massless planet; the eccentric branch and the units are not tested at all.",
  [K], [("get_aor_from_transit_duration", K), ("eccentric duration branch of __init__", K), ("jacobians", K)],
  ["get_relative_position", "orbit.jacobians['duration']", "orbit.a"])
p("K07", "Radial velocity is the star's line-of-sight reflex velocity",
  "For every orbit and time the radial velocity is the star's velocity away from the observer (positive for a redshift), in m/s or in the requested unit, one column per planet. When a semi-amplitude K is given it is used instead of masses and inclination, and giving the orbit's own semi-amplitude reproduces the physical curve.",
  ["inputs", "configurations"],
  "all orbits, masses, inclinations, output units, K given or not, one or several planets",
  "test_radial_velocity compares the two code paths at one orbit; sign, units, circular orbits and several planets are not tested.",
  [K], [("get_radial_velocity", K)], ["get_radial_velocity"])
p("K08", "Light-travel delay returns where the body is seen",
  "With light_delay the position returned at time t for the star, the planet or the relative orbit is the position at the earlier or later emission time whose light crosses the barycenter plane at t, up to the documented second-order expansion. It has the same shape and units (R_sun, or arcseconds with a parallax) as without the delay, for Keplerian and TTV orbits alike.",
  ["inputs", "configurations"],
  "all orbits, bodies, times, scalar or vector times, one or several planets, with or without parallax, TTVs",
  "test_light_delay uses random orbits but only the planet of single-planet eccentric systems at scalar times; circular orbits, stars, parallax and TTV orbits are not compared to an exact solution.",
  [K, T], [("_get_retarded_position", K), ("_warp_times(_pad=False)", T)], ["get_planet_position", "get_star_position", "get_relative_position", "get_relative_angles with light_delay=True"])
p("K09", "Parallax turns positions into consistent sky angles",
  "With a parallax in arcseconds every returned position is the R_sun position times the angle subtended by one R_sun at that distance, for star, planet and relative positions. Separation and position angle are the polar form of the relative sky position (angle in [-pi, pi], measured from the first sky axis towards the second), with or without a parallax.",
  ["inputs", "configurations"],
  "all orbits, times and parallaxes, for each body and for the angles",
  "No test passes a parallax to a position method or calls get_relative_angles.",
  [K, "src/exoplanet/orbits/constants.py"], [("_get_position parallax scaling", K), ("get_relative_angles", K)], ["get_*_position(parallax=...)", "get_relative_angles"])
p("K10", "in_transit returns exactly the observations touched by a transit",
  "For every orbit, radius and set of times, in_transit returns, in increasing order, the indices of the times at which some planet is in front of the star with its disk touching the stellar disk, extended by half the exposure time at both ends when texp is given. Grazing, non-transiting, eccentric and multi-planet systems, vector exposure times and times many periods from the epoch obey the same rule (a system whose contact times cannot be solved may report every time, never fewer).",
  ["inputs", "configurations"],
  "all (e, omega, b, r, a/R, times, texp) including grazing and missing transits, with TTVs, and any number of planets",
  "Three orbits are checked on 1000 times without exposure times; grazing and non-transiting geometry and texp are not compared with the true contact times.",
  [K, T], [("in_transit", K), ("ops.contact_points", "exoplanet_core"), ("_warp_times", T)], ["KeplerianOrbit.in_transit", "TTVOrbit.in_transit"])
p("K11", "Swapping star and planet describes the same physical system",
  "The orbit obtained by exchanging the roles of star and planet, which secondary eclipses are built on, has the planet where the star was and the star where the planet was at every time, for positions and velocities, circular or eccentric, with or without node angle. Swapping twice gives back the original system.",
  ["inputs", "configurations", "histories"],
  "all orbits, masses, orientations and epochs; repeated swaps",
  "Two orbits at one mass ratio, positions only, one swap.",
  [K, "src/exoplanet/light_curves/secondary_eclipse.py"], [("_flip", K)], ["orbit._flip(r).get_*_position / velocity"])
p("K12", "Planets are independent: a multi-planet result stacks the single ones",
  "For every method of an orbit, the values computed for several planets, times or exposure points together equal those computed one planet and one time at a time, and the result has the shape of the times followed by the planets with length-one axes dropped. Python numbers, lists, integer or float32 arrays, tensor constants and symbolic variables given as parameters or times give the same values.",
  ["inputs", "configurations"],
  "all combinations of shapes (scalar, length 1, length N) of times and parameters, mixed scalar/vector parameters, and input kinds",
  "Shapes are tested for light_delay only, and values are never compared across shapes or input kinds.",
  [K, S, T, "src/exoplanet/utils.py"], [("shape_padright/squeeze", K), ("as_tensor_variable", "src/exoplanet/utils.py")], ["all get_* methods of the orbits"])
p("U01", "Attached units convert exactly and reach every parameter",
  "A tensor given a unit and converted to a target unit has the exactly converted value, a value without a unit is passed through untouched, and attaching a unit twice raises TypeError. An orbit built with period, semi-major axis, duration, stellar mass, radius, density or planet mass in any compatible unit, or through the deprecated unit keywords, is the same orbit as one built with the values converted by hand to the documented default units.",
  ["inputs", "configurations"],
  "every unit-aware parameter x several compatible units x every legal parameter combination",
  "Only the planet mass in Earth masses and the density are tested.",
  ["src/exoplanet/units.py", K], [("with_unit / to_unit / has_unit", "src/exoplanet/units.py"), ("_get_consistent_inputs", K)], ["with_unit, to_unit, has_unit", "orbit attributes"])
p("T01", "TTV orbits transit exactly at the labelled times",
  "A TTV orbit puts every planet mid-transit at each of its labelled transit times, and within half the spacing around a transit it moves like the Keplerian orbit shifted so that its reference transit is that one; before the first and after the last label it continues from the nearest labelled transit. Unlabelled transits (numbered from zero up to the last label) fall on the linear ephemeris, and every planet uses only its own transits.",
  ["inputs", "configurations"],
  "all timing patterns over up to several transits, all subsets of observed transits, one or several planets, all times",
  "test_ttv only uses zero TTVs for positions and checks the times lists otherwise; no test has a missing transit or looks at the orbit around a shifted transit.",
  [T], [("_get_model_dt / _warp_times", T), ("_bin_edges, _bin_values", T), ("all_transit_times", T)], ["TTVOrbit.get_*_position, velocity, in_transit", "transit_times, all_transit_times"],
  [("_bin_edges", "boundaries between the zones of influence of transits", T)])
p("T02", "Transit times and TTVs are two views of the same orbit",
  "Given transit times (with optional transit numbers) the orbit's ttv_period and t0 are the least-squares linear ephemeris and the TTVs are the residuals; given TTVs the transit times are t0 + n*period + ttv, and converting one description to the other and back changes nothing. Zero TTVs reproduce the Keplerian orbit everywhere, delta_log_period or a separate period changes only the shape of transits and not their times, and giving neither raises ValueError.",
  ["inputs", "configurations", "histories"],
  "all timing patterns, transit-number subsets, several planets of different lengths, period/delta_log_period/neither",
  "One random instance is round-tripped with consecutive transits; transit numbers, delta_log_period and a separate period are never used.",
  [T], [("linear regression in __init__", T), ("ttv_period / period split", T)], ["TTVOrbit.ttv_period, .t0, .ttvs, .transit_times, .period"])
p("T03", "Expected transit times list every transit in the window, once",
  "For any window, period and reference time, the returned times are exactly the times t0 + n*period (n any integer) inside the closed window, in increasing order, one array per planet. Windows far before or after the reference time, windows containing no transit and windows whose ends fall on a transit are handled the same way.",
  ["inputs"], "all windows, periods and reference times, including exact hits of the window ends",
  "One window after t0, with inequalities on the first and last time; no boundary hit, empty window or window before t0.",
  [T], [("compute_expected_transit_times", T)], ["compute_expected_transit_times"])
p("S01", "The simple transit orbit transits for its duration and no longer",
  "For every SimpleTransitOrbit the planet crosses the star in a straight line at constant speed with impact parameter b, in front of the star exactly while the time is within half a duration of t0 plus a whole number of periods, touching the stellar limb at distance (1+ror)*r_star at both ends, and behind it otherwise. in_transit selects those times for the given radius and exposure time, the star stays at the origin, and velocities and light delay raise NotImplementedError.",
  ["inputs", "configurations"],
  "all periods, epochs, durations, impact parameters, radius ratios, stellar radii, one or several planets, times many periods away",
  "One orbit with ror=0 and no exposure time.",
  [S], [("get_relative_position", S), ("in_transit", S)], ["get_relative_position, get_planet_position, get_star_position, in_transit"])
p("L01", "Transit depth equals the blocked limb-darkened light",
  "For every pair of quadratic limb-darkening coefficients, radius ratio and projected separation, the relative flux change equals minus the fraction of the stellar light (intensity 1-u1(1-mu)-u2(1-mu)^2) inside the planet's disk, including separations at and near every contact, planets larger than the star and complete coverage. It is zero (to floating-point rounding) when the disks do not overlap, and zero whenever the planet is behind the star.",
  ["inputs"], "all (u1, u2, r, b) with r from 0 to above 1 and b from 0 to beyond contact, line-of-sight sign",
  "Only one radius and one (u1,u2) is compared with batman, at one impact parameter track; the starry comparison is skipped here.",
  [L], [("get_cl", L), ("quad_limbdark_light_curve", L), ("_compute_light_curve", L)], ["LimbDarkLightCurve.get_light_curve, _compute_light_curve"])
p("L02", "A light curve follows the orbit: right time, right planet, right star size",
  "At every time the light curve has one column per planet, equal to the limb-darkening flux change for that planet's projected separation and radius in units of the stellar radius, and zero while it is behind the star. Scaling all lengths together changes nothing, scalar and vector radii follow their planets, and leaving out orbit, r or t raises ValueError.",
  ["inputs", "configurations"],
  "all orbit types, radii shapes, stellar radii, times, limb darkening given as two values or as a vector",
  "Values are compared with an independent code for one orbit and one planet.",
  [L], [("get_light_curve", L)], ["LimbDarkLightCurve.get_light_curve"])
p("L03", "Skipping out-of-transit times never changes the light curve",
  "For every orbit type, set of times, radii, exposure times, oversampling and integration order, the light curve computed only for the in-transit times equals the one computed at all times. This includes data sets with no in-transit point, only in-transit points, unsorted or repeated times, and several planets transiting at different times.",
  ["inputs", "configurations"], "all orbits x time sets x texp (none, scalar, vector) x oversample x order",
  "Two orbits at one exposure time and the default order.",
  [L, K, S], [("use_in_transit", L), ("in_transit", K)], ["LimbDarkLightCurve.get_light_curve(use_in_transit=True/False)"])
p("L04", "Exposure-time integration is the stated average over the exposure",
  "With an exposure time the flux at t is the weighted mean of the instantaneous flux over [t-texp/2, t+texp/2] with the nodes and weights of the midpoint rule (order 0), the trapezoid rule (order 1) or Simpson's rule (order 2) on the requested odd number of points (an even request is rounded up). Scalar and per-observation exposure times agree, the result converges to the true average, and any other order raises ValueError.",
  ["inputs", "configurations"], "all texp (scalar/vector), oversample values, orders, orbits, times",
  "Default order and oversample only, and only self-consistency of scalar and constant vector exposure times.",
  [L], [("stencil", L)], ["LimbDarkLightCurve.get_light_curve(texp, oversample, order)"])
p("L05", "Secondary-eclipse light curves combine both eclipses by flux ratio",
  "For every system the light curve is (transit of the secondary over the primary + f * eclipse of the secondary by the primary)/(1+f), with f the surface-brightness ratio times the squared radius ratio and each star using its own limb darkening. A zero surface brightness gives the plain transit light curve, and during a total eclipse the lost flux is f/(1+f).",
  ["inputs", "configurations"], "all orbits (circular and eccentric), radius ratios, brightness ratios, limb darkening pairs, exposure settings",
  "One circular edge-on orbit at one radius and brightness ratio.",
  ["src/exoplanet/light_curves/secondary_eclipse.py", K, L], [("get_light_curve", "src/exoplanet/light_curves/secondary_eclipse.py"), ("_flip", K)], ["SecondaryEclipseLightCurve.get_light_curve"])
p("L06", "Approximate depth and radius ratio invert each other",
  "The radius ratio returned for a transit depth and impact parameter is the one whose small-planet depth at that impact parameter, radius ratio squared times the local intensity over the disk-averaged intensity, equals the given depth. It has the shape of the impact parameter, the returned Jacobian is its derivative with respect to the depth, and for small planets it reproduces the depth of the full light curve at mid-transit.",
  ["inputs"], "all (u1, u2, depth, b) with |b|<1, scalar and vector",
  "One limb-darkening pair and six depth/impact parameter points, checked against a copy of the formula.",
  [L], [("get_ror_from_approx_transit_depth", L)], ["LimbDarkLightCurve.get_ror_from_approx_transit_depth"])
p("L07", "Interpolated light curves agree with the model they interpolate",
  "An interpolated light curve equals the base light curve at the phase grid points and approaches it elsewhere as the number of phases grows, for one or several planets with their own periods and epochs. Times any number of periods away give the same value as the corresponding phase.",
  ["inputs", "configurations"], "all orbits, numbers of phases, planets, times",
  "The class is not tested at all.",
  ["src/exoplanet/light_curves/interpolated.py"], [("interp", "src/exoplanet/light_curves/interpolated.py"), ("InterpolatedLightCurve.get_light_curve", "src/exoplanet/light_curves/interpolated.py")], ["InterpolatedLightCurve.get_light_curve"])
p("G01", "Gradients of model outputs are finite and correct",
  "The gradients of positions, radial velocities and light curves with respect to every orbital, stellar, planetary and limb-darkening parameter are finite and equal the derivatives of the computed values, in and out of transit, for circular and eccentric orbits, with and without exposure integration and light delay. Samplers rely on this at every parameter value away from geometric contacts.",
  ["inputs", "configurations"], "all parameters x parameter values x model options",
  "Gradients are only verified for the bare flux function at one radius, for duration and b Jacobians at one point.",
  [K, L, T], [("pytensor graph construction throughout", K), ("pt.switch branches", K)], ["pytensor.grad of get_* outputs"])
p("P01", "Results do not depend on the history of calls",
  "Whatever sequence of methods was called before on an orbit, light curve or other object, each call returns the same values as on a fresh object, and building or using one object never changes another. Input arrays and the objects passed as arguments are never modified.",
  ["histories"], "all sequences of constructor and query calls up to a bound, on shared and separate objects",
  "Each test makes one or two calls on a fresh object.",
  [K, T, S, L, "src/exoplanet/light_curves/secondary_eclipse.py", "src/exoplanet/interp.py"], [("attributes set once in __init__", K), ("jacobians defaultdict per instance", K), ("functional tensor graphs", L)], ["all public methods"],
  [("self.jacobians", "per-orbit table of Jacobians", K), ("model.__citations__", "per-model citation table", "src/exoplanet/citations.py")])
p("D01", "The angle distribution is uniform on the circle",
  "Every value of an angle variable lies in [-pi, pi] and, whatever the regularization, its prior density is uniform, for every element of every shape; the starting point is the requested initial value. The density of the sampling space is the one documented: independent normals with an extra factor radius^(2*regularization).",
  ["inputs", "configurations"], "all points of the sampling space, shapes, initial values, regularization values",
  "A KS test on one scalar chain with a loose threshold; initial values are tested for shape only and always zero.",
  [D], [("angle", D)], ["pm.Model logp and Deterministic value of angle()"])
p("D02", "unit_disk variables are uniform over the unit disk",
  "Both variables always satisfy x^2+y^2 < 1 and have constant density over the whole disk, for every element of every shape. The starting point is the requested pair of initial values.",
  ["inputs", "configurations"], "all points of the sampling space, shapes and initial values inside the disk",
  "A KS test of x^2+y^2 on one scalar chain (which a wrong angular distribution passes); only zero initial values, and only their shapes.",
  [D], [("unit_disk", D)], ["pm.Model logp and values of unit_disk()"])
p("D03", "Limb-darkening priors are uniform over the physical region",
  "Every sampled pair satisfies u1+u2 < 1, u1 > 0 and u1+2*u2 > 0, the prior density is constant over that whole triangle, for every element of every shape, with u1 first and u2 second. The starting point is the requested pair of initial values.",
  ["inputs", "configurations"], "all points of the sampling space, shapes, initial values",
  "KS tests on one chain with a loose threshold; initial values are not tested.",
  [D], [("quad_limb_dark", D)], ["pm.Model logp and values of quad_limb_dark()"])
p("D04", "Impact parameters are uniform between 0 and 1+ror",
  "Given the radius ratio, the impact parameter is uniform on [0, 1+ror] for each planet, whether the radius ratio is a number, an array or a random variable, with the shape of the radius ratio unless one is given. The starting point is the requested impact parameter (0.5 by default).",
  ["inputs", "configurations"], "all radius ratios, shapes and initial values, all points of the sampling space",
  "The tests only check that b <= 1+ror and that the radius ratio (not b) stays uniform.",
  [D], [("impact_parameter", D)], ["pm.Model logp and values of impact_parameter()"])
p("D05", "kipping13 is the published Beta prior, normalized within its bounds",
  "The log density of the eccentricity is that of the documented Beta distribution (all, long-period or short-period parameters; fixed, or marginalized over positive normal hyperparameters), restricted to and renormalized on [lower, upper] when bounds are given, whether the eccentricity is sampled or observed. Outside the bounds the density is zero, and the starting point lies within the bounds.",
  ["inputs", "configurations"], "all combinations of fixed, long, lower, upper, observed, shape x all eccentricities",
  "KS tests on chains for the fixed unbounded cases; bounded cases only check the support.",
  [EC], [("kipping13", EC), ("_truncate / _truncate_dist", EC)], ["pm.Model logp"])
p("D06", "vaneylen19 is the published mixture prior within its bounds",
  "Up to a constant, the density of the eccentricity is (1-frac) * half-normal + frac * Rayleigh with the documented single- or multi-planet parameters (fixed, or marginalized over positive normal hyperparameters with the fraction in [0,1]), restricted to [lower, upper], whether sampled or observed. Outside the bounds the density is zero.",
  ["inputs", "configurations"], "all combinations of fixed, multi, lower, upper, observed, shape x all eccentricities",
  "KS tests on two chains for fixed unbounded cases; bounded and hierarchical cases only check the support.",
  [EC], [("vaneylen19", EC)], ["pm.Model logp"])
p("C01", "A model's citations list exactly the components it uses",
  "For every sequence of component constructions in nested or separate models, a model's citation text and bibliography contain the entries of exactly the components built in that model (by context or by the model argument) plus exoplanet and its base dependencies, each bibliography entry once; a model with no registered component returns empty strings. Every key named in the acknowledgement is defined in the bibliography text, whatever the line width.",
  ["histories", "configurations"], "all sequences of component constructions, model contexts and explicit model arguments up to a bound",
  "One component in one model.",
  ["src/exoplanet/citations.py", K, L, D, EC], [("add_citations_to_model", "src/exoplanet/citations.py"), ("get_citations_for_model", "src/exoplanet/citations.py")], ["get_citations_for_model"],
  [("model.__citations__", "citations registered on a model", "src/exoplanet/citations.py")])
p("E01", "Peak finding reports the highest strict local maxima, best first",
  "For every power spectrum the peaks returned are the interior strict local maxima in decreasing order of power, at most max_peaks of them (only the best one as a single dictionary when max_peaks is 0, ValueError when there is none). For each, index points at the maximum, and period, log_power and period_uncert describe the parabola through the logarithms of the three samples around it.",
  ["inputs"], "all power sequences up to a length over a small alphabet, frequency grids rising or falling, uneven, all max_peaks",
  "find_peaks is only reached through two estimators, whose first period is compared loosely.",
  [ES], [("find_peaks", ES)], ["find_peaks"])
p("E02", "Period estimators stay within limits and find the injected period",
  "For a clean periodic signal (sinusoid or box transit) each estimator's best peak is within its resolution of the injected period, whatever the sampling, phase, amplitude and offset in time, and the minimum and maximum period given bound the periods searched. The returned periodogram or autocorrelation corresponds to the data, the filter only affects which peaks are chosen, and at most max_peaks peaks are returned.",
  ["inputs", "configurations"], "a lattice of periods, phases, samplings, time offsets and period limits",
  "One period, one sampling per estimator.",
  [ES], [("lomb_scargle_estimator", ES), ("autocorr_estimator / autocorr_function", ES), ("bls_estimator", ES)], ["lomb_scargle_estimator, autocorr_estimator, bls_estimator"])
p("E03", "Semi-amplitude and minimum-mass estimates recover the planets",
  "For noiseless sums of circular-orbit radial velocities plus a constant, the estimated semi-amplitudes are those injected, with or without known transit times, for any number of planets, weights and units; with known transit times the sign follows the orbit's convention. For any other data they are the least-squares amplitudes, weighted by the uncertainties. The minimum mass is the mass (times sin of the inclination) that produces that semi-amplitude for a small planet, for any stellar mass and period, in Jupiter masses.",
  ["inputs", "configurations"], "lattice of periods, amplitudes, phases, offsets, uncertainties, units, number of planets, stellar masses",
  "One planet at one period, unit weights, default stellar mass.",
  [ES], [("_get_design_matrix", ES), ("estimate_semi_amplitude", ES), ("estimate_minimum_mass", ES)], ["estimate_semi_amplitude, estimate_minimum_mass"])
p("I01", "Grid interpolation is multilinear, exact at nodes, filled outside",
  "For every regular grid (uneven spacing, any number of dimensions, any trailing output axes) and coordinates, the interpolated value is the multilinear interpolation of the surrounding cell, equal to the tabulated value at every node including both edges. With a fill value exactly the points outside the closed grid get it; without one they are extrapolated from the nearest cell.",
  ["inputs", "configurations"], "all grids up to 3-4 dimensions, all node/cell/edge/outside coordinates, trailing shapes, fill values",
  "Two interior points and two outside points of one 3-D grid with scalar outputs.",
  ["src/exoplanet/interp.py"], [("regular_grid_interp", "src/exoplanet/interp.py")], ["RegularGridInterpolator.evaluate", "regular_grid_interp"])

p("M01", "A joint transit and radial-velocity model is the sum of its parts",
  "For every combination of this library's priors, orbits and light curves in one PyMC model (plain, named or nested; one planet, several as vectors, or several with variables of their own), the joint log density is the sum of the log densities of the parts built separately plus the likelihood of the data under the physical light curve and radial velocity; the sampled variables and their starting points are those of the parts, and the density has finite gradients.",
  ["inputs", "configurations", "histories"], "all combinations of prior components, orbit, data, number of planets, model nesting x walks in the joint sampling space",
  "Components are tested one at a time; no test builds a joint model.",
  [D, EC, K, T, L, "src/exoplanet/light_curves/secondary_eclipse.py", "src/exoplanet/utils.py"], [("components in one pm.Model", D)], ["pm.Model.logp and its gradient", "initial_point"])
p("R01", "Results follow the data when shared values are replaced",
  "An orbit, light curve, prior or interpolator built from shared variables, function inputs or pm.Data gives, after any sequence of replacements of those values (times, ephemerides, radii, masses, limb darkening, exposure times, transit times, grids), the results of the same object built from plain arrays of the current values: nothing is decided from the values present when it was built.",
  ["histories", "inputs", "configurations"], "all sequences of value replacements up to closure over an alphabet per argument, from several building assignments",
  "Every test evaluates a graph once, with the constants it was built from.",
  [K, T, S, L, "src/exoplanet/interp.py", "src/exoplanet/utils.py"], [("as_tensor_variable / graph building", "src/exoplanet/utils.py")], ["compiled functions of the graphs"],
  [("shared variables / pm.Data", "values that are replaced between evaluations", K)])

p("X01", "Illegal argument sets are refused, legal ones honoured in full",
  "For every set of arguments of an orbit (period, a, stellar parameters, eccentricity, orientation, duration, epoch), a set the documented rules forbid is refused with an exception and every other set is served, with each given argument honoured and every other attribute derived from them. Likewise for incomplete light-curve requests, unknown integration orders, unsupported combinations (light delay or velocities where not implemented), a second unit on an object, and limb-darkening vectors of the wrong length; deprecated spellings still work, with a warning, like the new ones.",
  ["configurations", "histories"], "all 2^15 argument sets of an orbit, all sets of light-curve arguments, all histories of unit operations up to a length",
  "A handful of legal constructor calls and a few illegal ones.",
  [K, T, S, L, "src/exoplanet/units.py", "src/exoplanet/distributions/__init__.py"], [("KeplerianOrbit.__init__ / _get_consistent_inputs", K), ("with_unit / to_unit", "src/exoplanet/units.py"), ("get_light_curve", L)], ["KeplerianOrbit(...)", "get_light_curve", "with_unit"],
  [("unit tag of an object", "unit attached to a tensor", "src/exoplanet/units.py")])

p("V01", "Each observation stands alone",
  "Whatever depends on a list of observation times (positions, velocities, radial velocities, angles, light curves, transit masks, phase folding), with one exposure time or one per observation, gives for each time exactly what it gives for that time alone: independent of the other times, of their order, of repetitions, of how many there are (none, one, or tens of thousands) and of other entries that are not a number; the indices of observations in transit are those of the times selected alone, in order.",
  ["inputs", "configurations", "histories"], "all words of observations up to a length over alphabets of times and exposure times, and long words, in every order",
  "Tests evaluate one sorted, evenly spaced grid of times per case.",
  [K, T, S, L, "src/exoplanet/light_curves/secondary_eclipse.py", "src/exoplanet/light_curves/interpolated.py"], [("in_transit / get_relative_position / _get_model_dt", K), ("get_light_curve / exposure integration", L)], ["KeplerianOrbit.get_*", "TTVOrbit.get_*", "SimpleTransitOrbit.get_*", "get_light_curve", "in_transit"])

p("N01", "Equal numbers give equal results in any representation",
  "Every argument that takes numbers (orbital elements, times, radii, exposure times, coefficients, transit times, data of the estimators, bounds of priors) may be given as a Python number, list or tuple, as an array of any integer or floating type and any memory layout (strided, reversed, read-only), as a pandas Series, or as a symbolic, shared or constant tensor of integer or floating type: the results are those of the same numbers as double precision arrays (to single precision if they came as such), nothing is rounded, truncated or overflowed, and the arguments are not modified.",
  ["inputs", "configurations"], "all representations of every argument alone, every pair and all together, with whole and fractional values of the others",
  "Tests pass Python floats and float64 arrays.",
  [K, T, S, L, "src/exoplanet/utils.py", ES, D, EC, "src/exoplanet/interp.py"], [("as_tensor_variable", "src/exoplanet/utils.py"), ("to_unit", "src/exoplanet/units.py")], ["every public constructor and function"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
