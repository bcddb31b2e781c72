"""A small solver-backed symbolic executor for Python source (see DESIGN.md)."""
