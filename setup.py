#!/usr/bin/env python3
"""Builds every harness once (fills the object cache)."""
import vbuild, checks
for b in sorted({w[0] for c in checks.CHECKS.values() for w in c['workloads']}): print(b, getattr(vbuild, b)())
