"""Static value-flow analysis of /repo/artist (nothing here imports or runs the analysed code)."""
