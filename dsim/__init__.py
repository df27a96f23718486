"""Deterministic simulation of parsevasp (see DESIGN.md)."""
