"""Whole-package analyses on the syntax trees of the package: names, types, aliasing, effects, influence and layering."""
