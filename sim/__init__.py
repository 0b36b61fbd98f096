"""Deterministic simulation of sympkf (see DESIGN.md)."""
