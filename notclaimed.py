"""Properties stated but not claimed, with the reason."""
PROPERTIES = []
