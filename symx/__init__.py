"""symx: a small symbolic executor for numpy code, deciding branches and assertions with z3."""
