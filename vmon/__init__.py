"""Runtime monitors for astrodynx (see ../DESIGN.md)."""
