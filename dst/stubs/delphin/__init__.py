"""Stand-in for pyDelphin (not installed here)."""
