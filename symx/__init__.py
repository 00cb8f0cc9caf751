"""symx: symbolic execution of the real flory sources over an SMT solver."""
