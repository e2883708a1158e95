"""A place generated modules can fetch live Python objects from."""
T = {}
