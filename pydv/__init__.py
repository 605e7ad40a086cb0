"""pydv: a small deductive verifier for the numpy-style Python of kalepy (see DESIGN.md)."""
