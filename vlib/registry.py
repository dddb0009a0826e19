from . import p_session, p_aiger, p_session2, p_lib, p_equiv, p_cuts, p_choice, p_resyn, p_flow, p_engine, p_programs, p_mapping, p_access
CHECKS = {}
for m in (p_session, p_aiger, p_session2, p_lib, p_equiv, p_cuts, p_choice, p_resyn, p_flow, p_engine, p_programs, p_mapping, p_access): CHECKS.update(m.CHECKS)
