"""Static analyser for oddlama/fora (see DESIGN.md)."""
