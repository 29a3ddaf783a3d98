"""Deterministic simulation of d42: one integer decides every run."""
