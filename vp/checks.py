"""Registry: property id -> check."""
from . import c_atoms, c_dimacs, c_obj, c_ext, c_capi, c_constr, c_enc, c_enforce, c_errors, c_stats, c_weights, c_inst, c_mgr, c_opb, c_proof, c_ptext, c_sim, c_solvers, c_types, c_vars, c_wrap, c_write

CHECKS = {}
TECH = {}
for m in (c_solvers, c_wrap, c_inst, c_vars, c_mgr, c_types, c_constr, c_enc, c_enforce, c_stats, c_weights, c_errors, c_write, c_opb, c_proof, c_ptext, c_sim, c_atoms, c_obj, c_ext, c_capi, c_dimacs):
    CHECKS.update(m.CHECKS)
    TECH.update(m.TECH)
