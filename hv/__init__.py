"""Runtime-monitoring harness for LLNL/hatchet (see DESIGN.md)."""
