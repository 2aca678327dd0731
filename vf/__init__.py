"""Runtime-monitoring checks for NCAR/PyConform."""
