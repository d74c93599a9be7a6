"""Property-based checks for spgrep."""
