//! Nothing: the checks in src/bin include what they share from src/h.
