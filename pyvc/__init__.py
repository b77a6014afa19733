"""pyvc: a deductive verifier for the Python code under /repo (see DESIGN.md)."""
