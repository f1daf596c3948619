"""Polynomial gradients are the exact partial derivatives on every path."""
from checks import c05
from checks.c05 import Job

LEVEL = "exploration"
RULE = c05.RULE.replace("non-zero value", "non-zero gradient")
ASSUMPTIONS = c05.ASSUMPTIONS
MIN_DISTINCT = 300
jobs = c05.jobs


def poly(ctx, i):
    c05.poly(ctx, i, True)


def sweep(ctx, i):
    c05.sweep(ctx, i, True)


def large(ctx, i):
    c05.large(ctx, i, True)


def mace_like(ctx, i):
    c05.mace_like(ctx, i, True)
