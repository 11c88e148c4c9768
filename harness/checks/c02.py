from checks.c01 import common


def run(c):
    common(c, ['commit-', 'crash'])
