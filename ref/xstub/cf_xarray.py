"""Stand-in: the accessor is part of the stand-in for xarray."""
