"""The checks: property -> harness sources, build flavour, assumptions."""
CHECKS = {
    "C01": {"sources": ["c01_prediction.cpp"], "scales": {"plain": {"quick": 3}}},
    "C02": {"sources": ["c02_update.cpp"], "scales": {"plain": {"quick": 8}}},
    "C03": {"sources": ["c03_settings.cpp", "c03_copies.cpp"], "scales": {"plain": {"quick": 5}}},
    "C04": {"sources": ["c04_polygon.cpp"], "scales": {"plain": {"quick": 8}}},
    "C05": {"sources": ["c05_interpolation.cpp"], "scales": {"plain": {"quick": 10}}},
    "C06": {"sources": ["c06_phases.cpp"]},
    "C07": {"sources": ["c07_feet.cpp"]},
    "C08": {"sources": ["c08_constraints.cpp"]},
    "C09": {"sources": ["c09_objectives.cpp"]},
    "C10": {"sources": ["c10_walkgen.cpp"]},
    "C11": {"sources": ["c11_order.cpp"]},
    "C12": {"sources": ["c12_zebulon_objectives.cpp"]},
    "C13": {"sources": ["c13_zebulon_constraints.cpp"], "scales": {"plain": {"quick": 6}}},
    "C14": {"sources": ["c14_tilt.cpp"], "scales": {"plain": {"quick": 8}}},
    "C15": {"sources": ["c15_zebulon_walkgen.cpp"], "scales": {"plain": {"quick": 3}}},
    "C16": {"sources": ["c16_zebulon_history.cpp"]},
    "C17": {"sources": ["c17_trajectory.cpp"], "scales": {"plain": {"quick": 4}}},
    "C18": {"sources": ["c18_trajectory_history.cpp"], "scales": {"plain": {"quick": 4}}},
    "C19": {"sources": ["c19_solver.cpp"], "scales": {"plain": {"quick": 4}}},
    "C20": {"sources": ["c20_symmetry.cpp"],
            "technique": "property-based testing: metamorphic relations between whole runs, with "
                         "shrinking"},
    "C21": {"sources": ["c21_precision.cpp"],
            "technique": "property-based testing: differential between the two precisions, with "
                         "shrinking"},
    # every law again, only for what it makes the code do to memory
    "C22": {"sources": ["c01_prediction.cpp", "c02_update.cpp", "c03_settings.cpp", "c03_copies.cpp",
                        "c04_polygon.cpp", "c05_interpolation.cpp", "c06_phases.cpp",
                        "c07_feet.cpp", "c08_constraints.cpp", "c09_objectives.cpp",
                        "c10_walkgen.cpp", "c11_order.cpp", "c12_zebulon_objectives.cpp",
                        "c13_zebulon_constraints.cpp", "c14_tilt.cpp", "c16_zebulon_history.cpp",
                        "c18_trajectory_history.cpp", "c19_solver.cpp", "c22_memory.cpp",
                        "c26_reads.cpp"],
            "flavours": ["asan", "memcheck"],
            "tools": {"memcheck": ["valgrind", "--quiet", "--exit-on-first-error=yes",
                                   "--error-exitcode=99", "--leak-check=no",
                                   "--track-origins=no"]},
            "args": ["--crashes-only", "1"],
            "scales": {"asan": {"quick": 0.05, "thorough": 0.04},
                       "memcheck": {"quick": 0.002, "thorough": 0.002}},
            "technique": "property-based testing: the generated histories under sanitisers and "
                         "valgrind, with shrinking"},
    "C23": {"sources": ["c23_closed_loop.cpp"],
            "technique": "property-based testing: generated command histories in closed loop "
                         "against stated bounds on the motion, with shrinking"},
    "C26": {"sources": ["c26_reads.cpp"]},
    "C27": {"sources": ["c27_growth.cpp"]},
    "C25": {"sources": ["c25_refusal.cpp"]},
    "C24": {"sources": ["c24_independence.cpp"], "flavours": ["plain", "tsan"],
            "scales": {"tsan": {"quick": 0.2, "thorough": 0.2}},
            "technique": "property-based testing: whole runs against the same runs beside others, "
                         "interleaved and in threads (also under ThreadSanitizer), with shrinking"},
}
