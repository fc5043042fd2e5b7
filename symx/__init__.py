"""Symbolic execution of the real cheval source by z3-backed proxy values."""
