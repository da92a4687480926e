"""Repository specific static analyser for pygerber (never imports pygerber)."""
