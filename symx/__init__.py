"""symx - solver-based symbolic execution of the real pyclibrary code."""
