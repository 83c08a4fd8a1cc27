"""Runtime monitors for plaquette: workloads, reference models and oracles."""
