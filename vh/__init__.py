"""Harness for the property checks of /verif (property-based testing with Hypothesis)."""
