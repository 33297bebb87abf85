"""A stand-in for the Python protobuf runtime, which is not installed."""
__version__ = '4.0.0'
