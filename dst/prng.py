"""Seeded randomness: every choice of every simulated run comes from one integer.

stream(seed, *path) derives an independent random.Random from VERIF_SEED and a
path of names and numbers, so that adding draws to one place never shifts the
choices made in another.
"""
import hashlib
import random


def derive(seed, *path):
    text = repr((int(seed),) + tuple(str(p) for p in path))
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')


def stream(seed, *path):
    return random.Random(derive(seed, *path))
