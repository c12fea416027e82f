"""Property id -> (rule function, technique, explanation)."""
import importlib
TABLE = {}
def reg(pid, technique, expl):
    def d(f): TABLE[pid] = (f, technique, expl); return f
    return d
import r_scheme
import r_passes
import r_emit, r_link, r_prims, r_data, r_tables, r_alloc, r_fasl, r_generic, r_agree, r_reader, r_text, r_sys, r_roots, r_gc
