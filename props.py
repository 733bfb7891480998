#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 props.py` rewrites both."""
import json, os
from checks import CHECKS

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Predictions equal step-by-step integration of the jerk",
     "For every horizon length, sampling period, feedback offset, state and control sequence, the "
     "position, velocity, acceleration, jerk and centre-of-pressure predictions of the pendulum, "
     "base, tilt and one-dimensional models are the samples of the motion obtained by integrating "
     "the piecewise-constant control step by step (the first interval may be shorter). "
     "The centre of pressure is mass-ratio * (position - height * (acceleration + g_xy) / g_z). "
     "Transposes and inverses kept beside a prediction are the transpose and the inverse of its "
     "control matrix.",
     ["inputs", "configurations"],
     "All horizon lengths, periods, feedback offsets, heights, gravities, masses, states, jerks",
     "Tests compare a handful of hand-computed matrices at fixed periods, never with a first "
     "interval different from the period, and never check that the inverse is one.",
     ["src/tools.cpp", "src/model/lip_model.cpp", "src/model/zebulon_base_model.cpp",
      "src/model/no_dynamic_model.cpp"],
     [("closed-form prediction matrices", "src/tools.cpp"),
      ("one set of matrices per feedback offset", "src/model/lip_model.cpp")],
     ["linear dynamic getters of the models"])

prop("C02", "State updates are exact, composable and match the predictions",
     "Updating the state of any model by a jerk over a period is the exact motion under that "
     "constant jerk; updating over t1 and then t2 equals updating once over t1+t2, and the updated "
     "state is the first sample the model predicts for that jerk and interval. "
     "An update along one axis leaves the other axis untouched.",
     ["inputs", "histories"],
     "All states, jerks, periods, and sequences of updates along both axes of every model",
     "Existing tests run one or two updates with fixed numbers; compositionality and agreement "
     "with predictions are relations over all histories.",
     ["src/model/lip_model.cpp", "src/model/zebulon_base_model.cpp",
      "src/model/no_dynamic_model.cpp", "src/tools.cpp"],
     [("state update", "src/tools.cpp ConstantJerkDynamic::updateState and the models")],
     ["model state getters"])

prop("C03", "Model configuration is independent of the history of setters",
     "After any valid sequence of setter calls on a pendulum, base, foot or one-dimensional model, every "
     "prediction and parameter equals that of a fresh model given the final parameters. "
     "With automatic computation off the same holds after an explicit recomputation. "
     "Copies of models, polygons and feet supervisors behave as their originals did, and "
     "independently of them.",
     ["histories", "configurations"],
     "All valid sequences of parameter changes, with and without automatic recomputation",
     "A stale cached matrix needs a particular order of setters to show; tests set each parameter "
     "once, in one order.",
     ["src/model/lip_model.cpp", "src/model/zebulon_base_model.cpp",
      "src/model/no_dynamic_model.cpp"],
     [("recomputation in setters", "src/model/*.cpp")],
     ["model getters"])

prop("C04", "Convex polygons are hulls; constraint rows mean membership",
     "A convex polygon built from any finite set of points has as vertices exactly the corners of "
     "their convex hull, in counter-clockwise order, and its axis-aligned bounds together with its "
     "general inequalities hold at a point exactly when the point lies in the hull (to a "
     "fraction of a millimetre, for hulls that are not degenerate). No point set makes construction crash or read out of bounds.",
     ["inputs"],
     "All point sets: random, duplicated, collinear, axis-parallel, single points",
     "The tests build three or four fixed polygons.",
     ["src/convexpolygon.cpp", "mpc-walkgen/convexpolygon.h"],
     [("gift wrapping and split into bounds and general rows", "src/convexpolygon.cpp")],
     ["vertices, bounds and general constraint getters"])

prop("C05", "Interpolated trajectories meet both ends and are smooth",
     "For any boundary position, velocity and acceleration the interpolated motion starts and ends "
     "exactly there, and its position, velocity and acceleration are continuous in between. "
     "At every time the piece that is evaluated is the one covering that time.",
     ["inputs"],
     "All boundary conditions, durations and sample times",
     "The tests evaluate one fixed spline at a few points.",
     ["src/interpolator.cpp", "mpc-walkgen/interpolator.h"],
     [("three cubic pieces solved from a 12x12 system", "src/interpolator.cpp")],
     ["interpolated factors and states"])

prop("C06", "The previewed walking phases follow the step timing exactly",
     "For any history of walk and stop commands and any valid timings, the support phase sequence "
     "alternates feet, each step and double support lasts its configured duration, and the number "
     "of previewed steps, the assignment of every horizon sample to its support foot and the "
     "sample weights are what a step-by-step simulation of the phases gives. "
     "Each sample belongs to exactly one foot, current or previewed. Steps already planned stay "
     "planned while the window slides over them, and the first guess of a newly previewed step "
     "lies within reach of the foot before it.",
     ["histories", "configurations"],
     "All valid timings (step, double support, sampling, feedback) and histories of commands",
     "Tests use one timing and look at the first few calls.",
     ["src/humanoid_feet_supervisor.cpp"],
     [("timeline and phase automaton", "src/humanoid_feet_supervisor.cpp updateTimeline")],
     ["number of previewed steps, selection matrices, weights, phase getters"],
     [("phase", "current support phase", "src/humanoid_feet_supervisor.cpp")])

prop("C07", "Swing feet land on their target; stance feet never move",
     "During every step of every walking history the stance foot keeps its position exactly, and "
     "the swing foot reaches the planned landing position, at rest and at ground height, when the "
     "step ends. In between the swing foot's motion is smooth and its height stays between the "
     "ground and the configured step height.",
     ["histories", "configurations", "inputs"],
     "All timings, commands, landing targets and step heights over whole walking histories",
     "Tests move a foot through one step with fixed numbers.",
     ["src/humanoid_feet_supervisor.cpp", "src/model/humanoid_foot_model.cpp",
      "src/interpolator.cpp"],
     [("foot state interpolation", "src/humanoid_feet_supervisor.cpp updateFeetStates")],
     ["foot state getters"])

prop("C08", "Walking constraints hold exactly on the support and reach regions",
     "The centre-of-pressure constraints over the horizon are satisfied exactly when each sample's "
     "centre of pressure lies in the support polygon of its phase (the foot polygon, or the hull of "
     "both feet in double support, a foot about to land counting where it is planned to). The step constraints are satisfied exactly when each previewed "
     "step lies in the reachable region of the foot relative to the previous one.",
     ["inputs", "histories", "configurations"],
     "All polygons, phases, horizons, candidate solutions along walking histories",
     "Tests compare constraint matrices of one small configuration with literals.",
     ["src/function/humanoid_cop_constraint.cpp", "src/function/humanoid_foot_constraint.cpp",
      "src/humanoid_feet_supervisor.cpp", "src/convexpolygon.cpp"],
     [("bounds and general rows per sample", "src/function/humanoid_cop_constraint.cpp"),
      ("rows per previewed step", "src/function/humanoid_foot_constraint.cpp")],
     ["constraint function, gradient and bounds"])

prop("C09", "Walking objectives' derivatives match the documented costs",
     "At every walking state and candidate solution, the gradient and Hessian of the velocity "
     "tracking, jerk and centre-of-pressure centring objectives are the derivatives of the weighted "
     "squared tracking error, jerk and distance to the support point, computed by simulating the "
     "pendulum and the previewed support feet. Hessians are symmetric and positive semi-definite.",
     ["inputs", "histories", "configurations"],
     "All states, references, phases, horizons and candidate solutions",
     "Tests compare one matrix with literals for a horizon of one or three samples.",
     ["src/function/humanoid_lip_com_velocity_tracking_objective.cpp",
      "src/function/humanoid_lip_com_jerk_minimization_objective.cpp",
      "src/function/humanoid_cop_centering_objective.cpp"],
     [("objective assembly", "src/function/humanoid_*.cpp")],
     ["getGradient, getHessian"])

prop("C10", "The walking generator applies an optimal, feasible plan every cycle",
     "Whenever the walking generator reports success, the motion it applies is the first control of "
     "an optimal solution of the stated problem (weighted objectives under support and reach "
     "constraints) for its current state, and the body and feet states advance exactly by it over "
     "one feedback period. When the solver fails, and so whenever no feasible plan exists, it "
     "reports failure.",
     ["inputs", "histories", "configurations"],
     "All configurations and histories of references, commands and solve calls",
     "No existing test runs a generator: the solver it needs is not even built with the tests.",
     ["src/humanoid_walkgen.cpp", "src/humanoid_feet_supervisor.cpp", "src/function/"],
     [("assembly, solve and state advance", "src/humanoid_walkgen.cpp")],
     ["solve result, body and foot states"])

prop("C11", "Walking generator behaviour is independent of configuration order",
     "Any valid order and repetition of configuration calls before walking gives the same walk as "
     "configuring a fresh generator with the final values, and no valid order crashes.",
     ["histories", "configurations"],
     "All valid permutations and repetitions of configuration calls followed by walking histories",
     "No existing test runs a generator at all.",
     ["src/humanoid_walkgen.cpp"],
     [("recomputation in setters", "src/humanoid_walkgen.cpp")],
     ["solve result, body and foot states"])

prop("C12", "Mobile-base objectives' derivatives match the documented costs",
     "For every state, reference and candidate solution the gradient and Hessian of the base "
     "velocity and position tracking, jerk minimisation, centre-of-mass centring and "
     "centre-of-pressure centring objectives are the derivatives of the squared error they stand "
     "for, evaluated on the simulated pendulum and base, gravity tilt included.",
     ["inputs", "configurations"],
     "All horizons, states, masses, heights, gravities, references and candidate solutions",
     "Tests compare a single horizon's literals with upright gravity.",
     ["src/function/zebulon_base_velocity_tracking_objective.cpp",
      "src/function/zebulon_base_position_tracking_objective.cpp",
      "src/function/zebulon_jerk_minimization_objective.cpp",
      "src/function/zebulon_com_centering_objective.cpp",
      "src/function/zebulon_cop_centering_objective.cpp"],
     [("objective assembly", "src/function/zebulon_*_objective.cpp")],
     ["getGradient, getHessian"])

prop("C13", "Mobile-base constraints hold exactly on the stated limits",
     "A candidate motion satisfies the base motion constraints exactly when the simulated base "
     "velocity, acceleration and jerk stay within their limits at every sample, and satisfies the "
     "support constraints exactly when the simulated centre of pressure and centre of mass, relative "
     "to the base, stay in their polygons.",
     ["inputs", "configurations"],
     "All limits, polygons, states, horizons and candidate solutions",
     "Tests compare literals of one square polygon, which cannot tell a polygon from its mirror.",
     ["src/function/zebulon_cop_constraint.cpp", "src/function/zebulon_com_constraint.cpp",
      "src/function/zebulon_base_motion_constraint.cpp",
      "src/function/zebulon_tilt_motion_constraint.cpp"],
     [("rows per edge and sample", "src/function/zebulon_*_constraint.cpp")],
     ["getFunction, getGradient, bounds"])

prop("C14", "Tilt objectives and constraint follow the tilting-base dynamics",
     "The predicted tilt angle and tilt velocity of the base used by the tilt objectives obey the "
     "documented rotational balance of body and base about the contact edge (standard gravity, "
     "the angle's sign as the code has it), their gradients and "
     "Hessians are the derivatives of the squared predicted tilt, and the tilt constraint holds "
     "exactly when the stated tilt condition does.",
     ["inputs", "configurations"],
     "All masses, heights, contact points, states, horizons and candidate solutions",
     "No existing test evaluates the tilt objectives.",
     ["src/function/zebulon_tilt_minimization_objective.cpp",
      "src/function/zebulon_tilt_velocity_minimization_objective.cpp",
      "src/function/zebulon_tilt_motion_constraint.cpp"],
     [("tilt dynamics", "src/function/zebulon_tilt_*_objective.cpp")],
     ["getGradient, getHessian, getFunction"])

prop("C15", "The mobile-base generator applies an optimal, feasible plan every cycle",
     "Whenever the mobile-base generator reports success, the jerks it applies begin an optimal "
     "solution of the weighted problem it was configured with, under all its constraints, for its "
     "current state and references, and the states advance exactly by them. When the solver fails, "
     "and so whenever no feasible plan exists, it reports failure and can be used further.",
     ["inputs", "histories", "configurations"],
     "All configurations, references, limits and histories of solve calls",
     "No existing test runs a generator.",
     ["src/zebulon_walkgen.cpp", "src/function/"],
     [("assembly, normalisation, solve and state advance", "src/zebulon_walkgen.cpp")],
     ["solve result, states and jerks"])

prop("C16", "Reconfiguring the mobile-base generator equals starting afresh",
     "After any valid history of reconfigurations and solves, the mobile-base generator behaves as "
     "a fresh generator given the final configuration and states.",
     ["histories", "configurations"],
     "All valid histories of setters interleaved with solves",
     "No existing test runs a generator; stale cached parts need particular histories.",
     ["src/zebulon_walkgen.cpp"],
     [("recomputation in setters", "src/zebulon_walkgen.cpp")],
     ["solve result, states and jerks"])

prop("C17", "The one-dimensional generator applies an optimal, feasible plan",
     "The one-dimensional generator's objectives and constraints are the stated tracking costs and "
     "motion limits, and each successful solve applies the first jerk of an optimal solution and "
     "advances the state exactly by it over the feedback period; without a feasible plan it reports "
     "failure.",
     ["inputs", "histories", "configurations"],
     "All horizons, weightings, references, limits, states and histories of solve calls",
     "Tests check the functions with literals; nothing runs the generator.",
     ["src/trajectory_walkgen.cpp", "src/function/trajectory_*.cpp"],
     [("assembly, solve and state advance", "src/trajectory_walkgen.cpp")],
     ["getGradient, getHessian, getFunction, solve result, state, jerk"])

prop("C18", "Reconfiguring the one-dimensional generator equals starting afresh",
     "After any valid history of reconfigurations and solves, the one-dimensional generator behaves "
     "as a fresh generator given the final configuration and state.",
     ["histories", "configurations"],
     "All valid histories of setters interleaved with solves",
     "Nothing runs the generator in the tests.",
     ["src/trajectory_walkgen.cpp"],
     [("recomputation in setters", "src/trajectory_walkgen.cpp")],
     ["solve result, state, jerk"])

prop("C19", "The solver layer reports failure and survives any problem sequence",
     "The solver layer hands the problem it is given to the solver unchanged, returns its solution "
     "on success, and reports failure whenever the solver failed, whatever the caller's logging "
     "choice. Warm starting never changes the answer as long as Q and A stay the same, and scaling "
     "a problem's data to normalise it never changes its solution set.",
     ["inputs", "histories", "fault_sequences"],
     "All problem sequences, solver failures at any call, warm and cold starts, log streams or none",
     "The solver layer is not built with the tests.",
     ["qpsolver/src/qpsolver_qpoases.hxx", "qpsolver/mpc-walkgen/qpsolver.h",
      "src/qpsolverfactory.cpp", "mpc-walkgen/qpsolverfactory.h"],
     [("solver wrapper", "qpsolver/src/qpsolver_qpoases.hxx"),
      ("normalisation", "qpsolver/mpc-walkgen/qpsolver.h")],
     ["solve result and solution"])

prop("C20", "Generators respect the symmetries of the problem",
     "Translating, reflecting, turning or horizontally scaling the whole scene (states, feet, "
     "polygons, references, gravity, tilt, limits) moves the generated motion the same way, for the "
     "humanoid, the mobile base (by quarter turns when its per-axis limits are on) and the "
     "one-dimensional generator (also under a change of the time unit); while standing, exchanging "
     "which foot is called the left one changes nothing for the body.",
     ["inputs", "histories", "configurations"],
     "All configurations, histories and symmetries",
     "A symmetry relates two whole runs; tests sample single calls.",
     ["src/humanoid_walkgen.cpp", "src/zebulon_walkgen.cpp", "src/trajectory_walkgen.cpp",
      "src/humanoid_feet_supervisor.cpp", "src/function/"],
     [("same formulas for both axes", "src/")],
     ["states over whole runs, solve results"])

prop("C21", "Single and double precision agree",
     "The single-precision instance of every component gives the double-precision result up to "
     "single-precision rounding, and takes the same discrete decisions (phases, polygon corners, "
     "success).",
     ["inputs", "histories", "configurations"],
     "All configurations and histories well away from decision boundaries",
     "Tests run both types on the same few literals only.",
     ["src/"],
     [("templates on the scalar type", "mpc-walkgen/type.h, src/macro.h")],
     ["states over whole runs"])

prop("C22", "No valid call history has undefined behaviour",
     "No valid history of calls on the generators, models and geometry reads or writes outside its "
     "objects, uses uninitialised or freed memory, overflows, or aborts.",
     ["histories", "inputs", "configurations"],
     "All valid call histories, under address and undefined-behaviour sanitisers",
     "The tests run without sanitisers and never run the generators.",
     ["src/", "mpc-walkgen/", "qpsolver/"],
     [("sizes recomputed by setters", "src/*_walkgen.cpp")],
     ["process exit, sanitiser reports"])

prop("C23", "Closed loop: walkers stay up, bases and axes reach their goals",
     "Run in closed loop with usual sizes, timings and weights, the generators do what they are "
     "for. A walking robot that is told to walk, stop, and change its speed, and is lightly "
     "pushed, has every cycle solved, never falls, keeps its centre of pressure in the soles on the "
     "ground, lands its feet within reach, reaches the commanded mean forward speed and comes to "
     "rest after a stop. A mobile base and an axis sent from goal to goal have every cycle solved, "
     "keep their velocity, acceleration and jerk limits and (base) their support regions, and "
     "arrive.",
     ["histories", "configurations"],
     "All command histories over configurations of usual proportions (the ranges are in DESIGN.md)",
     "No test runs a generator; that a sequence of plans adds up to a motion that stays up is a "
     "property of whole histories.",
     ["src/humanoid_walkgen.cpp", "src/zebulon_walkgen.cpp", "src/trajectory_walkgen.cpp",
      "src/humanoid_feet_supervisor.cpp"],
     [("one plan per cycle, first jerk applied", "src/*_walkgen.cpp")],
     ["states and solve results over whole runs"])

prop("C24", "Objects are independent of each other and runs are repeatable",
     "What a generator, model, feet supervisor, polygon or interpolator does is a function of the "
     "calls made on it: the same calls on a new object give the same outputs to the bit, whatever "
     "other objects of any class exist, were used before, are used in between, or are used by "
     "another thread at the same time, and whether those still live. Objects share no mutable "
     "memory (the process' error stream, to which a failed solve reports, aside).",
     ["histories", "schedules"],
     "All pairs of call histories, all interleavings of their calls, in one or two threads",
     "The tests use one object at a time in one thread.",
     ["src/", "mpc-walkgen/", "qpsolver/"],
     [("state kept in members only", "src/*.cpp")],
     ["every getter of both objects"])

prop("C25", "Invalid settings are refused at the call, valid ones at the limit accepted",
     "In builds with assertions, every call of the public interface (the three generators, the "
     "models, the feet supervisor, the objectives and constraints, the prediction and the QP "
     "solver) stops with a failed assertion, before any other fault, when an argument makes no "
     "sense: not a number, a vector of the wrong size, no samples, a period that is not positive, "
     "a step shorter than a sample, a phase shortened to before now, a negative weight or limit, "
     "a base without mass, a negative mass of a generator, a part heavier than the whole, a "
     "polygon without a surface, gravity without a vertical part, a body that moves up or down, references of a former horizon, or "
     "models of different horizons. Whatever the history was. Arguments at the limit (a weight or "
     "limit of zero, a part that is the whole, a triangle, a height of zero, a step of one sample) "
     "are accepted.",
     ["inputs", "histories"],
     "All arguments of every setter, constructor and evaluation, after any history",
     "The tests never pass an invalid argument.",
     ["src/", "mpc-walkgen/", "qpsolver/"],
     [("the assertions at the entry of every setter", "src/*.cpp"),
      ("the sizes of a problem", "qpsolver/mpc-walkgen/qpsolver.h dimensionsAreConsistent")],
     ["that the call was refused by an assertion of the repository, or accepted"])

prop("C26", "Reading changes nothing, and what was read stays until something is changed",
     "Getters and evaluations (states, linear dynamics, polygons, gradients, Hessians, constraint "
     "rows and bounds) change no later result: called any number of times, in any order, between "
     "any two changes of the models, of the supervisor or of a generator, each gives bit for bit "
     "the same each time; a reference one of them returned keeps its values until something is "
     "changed (or the same evaluation is made at another point), whatever else is read meanwhile; and a history of a generator gives the same "
     "results whether or not it is read from between its calls.",
     ["inputs", "histories"],
     "All readers of the models, supervisor, objectives, constraints and generators, in any order "
     "and number, within any history",
     "The tests read each value once.",
     ["src/", "mpc-walkgen/"],
     [("the members the evaluations fill and return", "src/function/*.cpp function_, gradient_, hessian_"),
      ("the support foot of a double support", "src/humanoid_feet_supervisor.cpp getSupportFootStateX, getSupportFootStateY")],
     ["the values read, and what the references refer to after other reads"])

prop("C27", "Running on needs no more memory, and everything taken is given back",
     "The memory a generator, a feet supervisor or a model uses is bounded by its configuration: "
     "however long it runs and however often the same settings, commands, solves and reads are "
     "repeated (stopping and setting off, resizing back and forth, replacing polygons, "
     "references, weights), the memory in use does not go on growing; and when an object is "
     "destroyed, everything that was taken for it, its solvers included, is given back.",
     ["histories"],
     "Any sequence of settings, commands, solves and reads, repeated any number of times",
     "The tests make each object once and call it a few times.",
     ["src/", "mpc-walkgen/", "qpsolver/"],
     [("the solvers and problems of all sizes", "src/humanoid_walkgen.cpp computeConstantPart"),
      ("the previewed phases", "src/humanoid_feet_supervisor.cpp updateTimeline"),
      ("the destructor of the solvers' base", "qpsolver/mpc-walkgen/qpsolver.h ~QPSolver")],
     ["the bytes allocated and not freed, after each repetition and after destruction"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py --build-all", "checks": [],
         "not_applicable": []}
    for p in P:
        i = p["id"]
        if i in CHECKS:
            s = CHECKS[i]
            m["checks"].append({
                "property": i,
                "quick_cmd": f"python3 run.py {i} --tier quick",
                "thorough_cmd": f"python3 run.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": s.get("technique", "property-based testing with shrinking against "
                                   "an independent extended-precision reference"),
                "level": "exploration",
                "level_note": s.get("note", "Random search over generated cases; absence of a "
                                    "violation is not a proof. Trusts the reference in "
                                    "/verif/harness and the compiler.")})
        else:
            m["not_applicable"].append({"property": i, "reason": s_reason(i)})
    m["notes"] = ("qpOASES is not installed here: the repository's solver wrapper is built "
                  "against a stand-in in harness/stubs that answers with an independent, "
                  "KKT-verified solver.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


def s_reason(i):
    return "the check is not built yet"


if __name__ == "__main__":
    main()
