"""An application without handlers."""
