"""Bounded exhaustive exploration of willfind/nimble against reference models."""
