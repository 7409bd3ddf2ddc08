"""Symbolic executor for the Python sources of /repo (see /verif/DESIGN.md)."""
