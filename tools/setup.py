#!/usr/bin/env python3
"""Build what the checks need (they rebuild it from the current tree anyway)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner, hard, props
runner.build(); runner.dictionary()
runner.build(profile="checked"); runner.build("sess"); runner.build("intern"); runner.build("intern", "checked"); runner.build(features="soft"); runner.build("kit"); runner.build("mp")
for c in props.CONFIGS: runner.plug(*c)
runner.capi()
runner.util()
runner.macros()
hard.write(os.path.join(runner.BUILD, "hard.txt"))
print("ready")
