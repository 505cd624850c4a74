"""Deterministic simulator for dattri (see /verif/DESIGN.md)."""
