"""Symbolic execution of Python/numpy code against an SMT solver."""
