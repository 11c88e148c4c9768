from checks.c05 import common


def run(c):
    common(c, ['commit-', 'driver', 'crash'])
