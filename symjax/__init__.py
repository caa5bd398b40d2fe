"""Symbolic execution of JAX programs with an SMT back end."""
