"""nastatic: a flow-sensitive abstract interpreter for the nappy code base (analysis only, never runs it)."""
