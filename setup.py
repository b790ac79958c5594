#!/usr/bin/env python3
"""Builds the framework from the committed files: compiles the drivers (warming the Go build cache)."""
import sys
import check
c = check.Ctx('setup', 'quick', 1)
c.build('drv')
c.build('drv', race=True)
c.gen('GenTables')
c.gen('GenSets')
