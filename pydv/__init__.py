"""pydv: deductive verification of the real Python source (see DESIGN.md)."""
