"""Runtime monitors for number-parser (see /verif/DESIGN.md)."""
