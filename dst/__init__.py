"""Deterministic simulation of pyjwkest: see /verif/DESIGN.md."""
