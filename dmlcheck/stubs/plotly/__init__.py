"""Stand-in for plotly: keeps what a figure is given."""
