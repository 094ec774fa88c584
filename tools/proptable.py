"""Per property: level, bounded parts, assumptions, notes."""
TABLE = {}
NA = {}
