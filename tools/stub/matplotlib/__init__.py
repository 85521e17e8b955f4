"""Stands in for matplotlib: pyplot records what would have been plotted."""
