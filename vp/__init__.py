"""Shared machinery of the property checks."""
