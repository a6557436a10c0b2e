"""Static analysis of gconv: an abstract interpreter over the Python syntax tree
with index-provenance tensor values (see ../DESIGN.md)."""
