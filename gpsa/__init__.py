"Static analyses deciding semantic properties of gpkit from its source."
