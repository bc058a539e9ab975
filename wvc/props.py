"""Assumptions reported with every proof, and those of single properties."""
ASSUMPTIONS = [
    'partial correctness: termination is not proved',
    'malloc, calloc and realloc never return null; objects are smaller than 2^40 bytes',
    'memory is typed: a byte range is read with the type it was written with; strings are copied as bytes',
    'external functions behave as their contracts in wvc/libc.py say (listed in trusted_base)',
    'pointer arithmetic is checked where the pointer is used, not where it is formed',
    'C locale; int is 32 bits, long and pointers 64 bits (x86-64)',
]
PER = {}
