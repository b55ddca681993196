"""Symbolic execution of real Python code with Z3 (see DESIGN.md)."""
