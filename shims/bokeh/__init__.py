"""Recorder with the names of the bokeh API that crowddynamics uses."""
