"""Bounded exhaustive model checker for connect-python (see /verif/DESIGN.md)."""
