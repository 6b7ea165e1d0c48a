"""Runtime-monitoring harness for skada (see DESIGN.md)."""
