"""Symbolic execution of numerical Python code with an SMT back end."""
