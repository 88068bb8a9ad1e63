//! Replaced by the types that checks/derived.py generates.
