"""What the pinned sources need from an older numpy/scipy than the one installed here

The repository predates numpy 2; these names only moved or were renamed there.
"""
import numpy as np

if not hasattr(np, "row_stack"):
    np.row_stack = np.vstack
