"""Stand-in: imported by the extraction, never used by it."""
