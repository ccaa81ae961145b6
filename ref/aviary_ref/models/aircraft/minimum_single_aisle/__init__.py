"""Minimum single-aisle aircraft example."""
