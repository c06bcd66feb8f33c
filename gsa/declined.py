"""Properties that static analysis cannot decide here, with the reason."""


def P(title, statement, over, quant, why, files, mech, reason):
    return {"title": title, "statement": statement, "over": over, "quant": quant, "why": why, "files": files,
            "mech": mech, "reason": reason}


DECLINED = [
    ("N01", P("Numerical accuracy of the network solution",
              "In any converged frame the solved potential vector satisfies the network equations to within the solver's convergence tolerance, and fluxes match the analytic solution of the link equations.",
              ["inputs", "configurations"], "all networks, states and step sizes",
              "Tests check a few small networks with hand-computed answers.", ["core/Gunns.cpp", "core/math/linear_algebra"],
              [("Cholesky/SOR solution of the assembled admittance matrix", "core/math/linear_algebra/CholeskyLdu.cpp")],
              "Quantifies over floating-point results of matrix decomposition for arbitrary networks; no static argument in reach bounds round-off or convergence. Its structural clauses (assembly, protocol, symmetry) are claimed separately.")),
    ("N02", P("Convergence of the non-linear minor-step loop",
              "For every physically valid non-linear network the minor-step iteration reaches a converged solution within the configured limits.",
              ["inputs", "configurations"], "all non-linear networks and configurations",
              "Tests run specific networks known to converge.", ["core/Gunns.cpp"],
              [("minor-step iteration", "core/Gunns.cpp")],
              "Convergence is a run-time numerical property of arbitrary link characteristics; only the loop's bounded exit and bookkeeping are visible in the code and claimed separately.")),
    ("N03", P("Long-run conservation of mass and energy",
              "Over any run the total mass and energy of a closed fluid or thermal network stay constant to within the documented tolerance.",
              ["histories", "inputs"], "all closed networks and histories",
              "Tests integrate a few steps of a few networks.", ["core", "aspects/fluid", "aspects/thermal"],
              [("flow transport and node integration", "core/GunnsFluidNode.cpp")],
              "The accumulated error depends on floating-point values and step sizes; only the pairing of what one port loses and the other gains is visible in the code and claimed separately.")),
    ("N04", P("Property curve fits match the reference data",
              "Every fluid and material property fit reproduces its published reference data within the documented error over the documented range.",
              ["inputs"], "every property, temperature and pressure in range",
              "Tests sample a few points per property.", ["ms-utils/properties", "ms-utils/math/approximation"],
              [("approximation coefficients", "ms-utils/properties/FluidProperties.cpp")],
              "The reference data are not in the repository, and agreement is a numerical statement about coefficient values; no structural clause is a necessary condition.")),
    ("N05", P("Round-trip of unit conversions and flash calculations",
              "Converting a quantity between units, or computing pressure from density and back, returns the original value within round-off.",
              ["inputs"], "every unit pair and every state",
              "Tests check sampled values.", ["ms-utils/math/UnitConversion.cpp", "core/GunnsFluidUtils.cpp"],
              [("conversion constants and inverse correlations", "ms-utils/math/UnitConversion.hh")],
              "Round-trip equality of floating-point functions is a numerical statement; deciding it needs evaluation or a solver, not structure.")),
]
