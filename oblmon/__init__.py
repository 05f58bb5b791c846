"""Runtime monitors for oblate: workload generators, reference models, checks."""
