"""Runtime monitors that decide the semantic properties of ocbpy."""
